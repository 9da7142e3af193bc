------------------------------- MODULE GenRgsw -------------------------------
(* Programs over three RLWE and three RGSW registers: <<op, dest, a, b, form>>. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT D
VARIABLE hist
R == 0..2
Init == hist = << >>
Put(o, d, a, b, f) == hist' = Append(hist, <<o, d, a, b, f>>)
Next == /\ Len(hist) < D
        /\ \E o \in {"ext", "radd", "cmux", "gone", "gzero", "gmulp", "gfma", "gadd", "gsub", "gmul"}, d, a, b \in R, f \in 0..3 : Put(o, d, a, b, f)
Finish == Len(hist) = D /\ Put("end", 0, 0, 0, 0)
GNext == Next \/ Finish
Emit == Len(hist) = D + 1 => PrintT("BEH " \o ToJson(SubSeq(hist, 1, D)))
=============================================================================
