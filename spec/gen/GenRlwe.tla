------------------------------- MODULE GenRlwe -------------------------------
(* Register programs over RLWE ciphertexts in coefficient form (0..2) and point-value form        *)
(* (0..2) with the protocol of lazily reduced point values (see GenRing).                         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT D
VARIABLES lz, hist
R == 0..2
Strict == R \ lz
Init == lz = {} /\ hist = << >>
Put(o, d, a, b) == \E f \in 0..4 : hist' = Append(hist, <<o, d, a, b, f>>)
Set(d) == lz' = lz \ {d}
S1 == \E o \in {"add", "sub", "shiftsub", "shiftadd"}, d, a, b \in R : Put(o, d, a, b) /\ UNCHANGED lz
S2 == \E o \in {"tmulp", "ton"}, d, a \in R : Put(o, d, a, 0) /\ Set(d)
S3 == \E o \in {"tadd", "tsub"}, d \in R, a, b \in Strict : Put(o, d, a, b) /\ Set(d)
S4 == \E d \in R, a \in Strict : Put("tmul", d, a, 0) /\ Set(d)
S5 == \E d \in Strict, a \in Strict : a # d /\ Put("tfma", d, a, 0) /\ UNCHANGED lz
S6 == \E d \in R, a \in Strict : a # d /\ Put("tfmaf", d, a, 0) /\ lz' = lz \cup {d}
S7 == \E d \in R, a, b \in Strict : Put("tfmai", d, a, b) /\ Set(d)
S8 == \E d, a \in R : Put("ntor", d, a, 0) /\ UNCHANGED lz
S9 == \E d \in R : (Put("zero", d, 0, 0) /\ UNCHANGED lz) \/ (Put("tzero", d, 0, 0) /\ Set(d))
Next == Len(hist) < D /\ (S1 \/ S2 \/ S3 \/ S4 \/ S5 \/ S6 \/ S7 \/ S8 \/ S9)
Finish == Len(hist) = D /\ hist' = Append(hist, <<"end", 0, 0, 0, 0>>) /\ UNCHANGED lz
GNext == Next \/ Finish
Emit == Len(hist) = D + 1 => PrintT("BEH " \o ToJson(SubSeq(hist, 1, D)))
=============================================================================
