------------------------------ MODULE GenCount ------------------------------
(* Histories of the counters: turning on and off, clearing, single          *)
(* transforms in every form, and rounds of threads, beside the switch or    *)
(* not.  Numbers are per thread.                                            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT D
VARIABLE hist
Room == Len(hist) < D
Put(o) == hist' = Append(hist, o)
Init == hist = << >>
On == Room /\ Put(<<"on", 0, 0, 0>>)
Off == Room /\ Put(<<"off", 0, 0, 0>>)
ClrF == Room /\ Put(<<"clrf", 0, 0, 0>>)
ClrI == Room /\ Put(<<"clri", 0, 0, 0>>)
Fwd == Room /\ \E f \in 0..4, k \in 1..3 : Put(<<"fwd", f, k, 0>>)
Inv == Room /\ \E f \in 0..4, k \in 1..3 : Put(<<"inv", f, k, 0>>)
Par == Room /\ \E th \in {2, 3, 5, 8} : \E f \in {0, 1, 40, 200} : \E i \in {0, 1, 30, 150} : Put(<<"par", th, f, i>>)
Beside == Room /\ \E th \in {2, 4} : \E f \in {0, 50} : \E i \in {1, 60} : Put(<<"beside", th, f, i>>)
Gate == Room /\ \E g \in 0..1 : Put(<<"gate", g, 0, 0>>)
Next == On \/ Off \/ ClrF \/ ClrI \/ Fwd \/ Inv \/ Par \/ Beside \/ Gate
Finish == Len(hist) = D /\ hist' = Append(hist, <<"end", 0, 0, 0>>)
GNext == Next \/ Finish
Emit == Len(hist) = D + 1 => PrintT("BEH " \o ToJson(SubSeq(hist, 1, D)))
=============================================================================
