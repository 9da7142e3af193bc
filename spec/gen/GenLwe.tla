-------------------------------- MODULE GenLwe --------------------------------
(* Register programs over three LWE ciphertexts: steps <<op, dest, a, b, form>>. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT D
VARIABLE hist
R == 0..2
Put(o, d, a, b, f) == hist' = Append(hist, <<o, d, a, b, f>>)
Init == hist = << >>
Next == /\ Len(hist) < D
        /\ \E o \in {"add", "sub", "neg", "scale", "fma", "copy"}, d, a, b \in R, f \in 0..2 : Put(o, d, a, b, f)
Finish == Len(hist) = D /\ Put("end", 0, 0, 0, 0)
GNext == Next \/ Finish
Emit == Len(hist) = D + 1 => PrintT("BEH " \o ToJson(SubSeq(hist, 1, D)))
=============================================================================
