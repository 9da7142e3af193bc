-------------------------------- MODULE GenCache --------------------------------
(* Histories of requests to a fresh table cache, in rounds of concurrent calls.                      *)
(* Steps <<kind, thread, size, size>>; sizes 1..4 stand for supported ones, 5..7 for unsupported.     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT D
VARIABLES hist, cnt
Put(k, th, x, y) == hist' = Append(hist, <<k, th, x, y>>)
Init == hist = << >> /\ cnt = 0
Room == Len(hist) < D
Th == 0..3
(* a thread may queue several requests in a round *)
Get == Room /\ cnt < 7 /\ cnt' = cnt + 1 /\ \E th \in Th, n \in 1..4 : Put("get", th, n, 0)
GetBad == Room /\ cnt < 7 /\ cnt' = cnt + 1 /\ \E th \in Th, n \in 5..7 : Put("get", th, n, 0)
InitT == Room /\ cnt < 7 /\ cnt' = cnt + 1 /\ \E th \in Th, n, m \in 1..4 : Put("init", th, n, m)
InitBad == Room /\ cnt < 7 /\ cnt' = cnt + 1 /\ \E th \in Th, n \in 1..4, m \in 5..7 : Put("init", th, n, m)
(* as many as n sizes at once, the last of them unsupported when b = 1 *)
Many == Room /\ cnt < 7 /\ cnt' = cnt + 1 /\ \E th \in Th, n \in 0..9, b \in 0..1 : Put("many", th, n, IF n = 0 THEN 0 ELSE b)
Poly == Room /\ cnt < 7 /\ cnt' = cnt + 1 /\ \E th \in Th, n \in 1..4 : Put("poly", th, n, 0)
Sync == Room /\ cnt > 0 /\ cnt' = 0 /\ Put("sync", 0, 0, 0)
Next == Get \/ GetBad \/ InitT \/ InitBad \/ Many \/ Poly \/ Sync
Finish == Len(hist) = D /\ Put("sync", 0, 0, 0) /\ UNCHANGED cnt
GNext == Next \/ Finish
Emit == Len(hist) = D + 1 => PrintT("BEH " \o ToJson(hist))
=============================================================================
