-------------------------------- MODULE GenBoot --------------------------------
(* Programs over three ciphertexts: bootstraps with several kinds of tables between linear steps. *)
(* Steps <<op, dest, a, b, kind>>.                                                                *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT D
VARIABLE hist
R == 0..2
Put(o, d, a, b, k) == hist' = Append(hist, <<o, d, a, b, k>>)
Init == hist = << >>
Boot == Len(hist) < D /\ \E d, a \in R, k \in 0..7 : Put("boot", d, a, 0, k)
Lin == Len(hist) < D /\ \E o \in {"add", "sub"}, d, a, b \in R : Put(o, d, a, b, 0)
New == Len(hist) < D /\ \E d \in R, k \in 0..3 : Put("new", d, 0, 0, k)
Next == Boot \/ Lin \/ New
Finish == Len(hist) = D /\ Put("end", 0, 0, 0, 0)
GNext == Next \/ Finish
Emit == Len(hist) = D + 1 => PrintT("BEH " \o ToJson(SubSeq(hist, 1, D)))
=============================================================================
