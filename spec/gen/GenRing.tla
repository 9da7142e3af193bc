------------------------------- MODULE GenRing -------------------------------
(* Register programs over polynomials (0..2) and point-value forms (0..2), with the protocol of   *)
(* lazily reduced point values: once lazy, a register may only be accumulated into lazily again,  *)
(* converted back, copied or overwritten.  A step is <<op, dest, a, b, form>>.                    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT D
VARIABLES lz, hist
R == 0..2
Strict == R \ lz
Fm == 0..4
Init == lz = {} /\ hist = << >>
Put(o, d, a, b) == \E f \in Fm : hist' = Append(hist, <<o, d, a, b, f>>)
NatBin == {"padd", "psub", "pmul"}
TBin   == {"tadd", "tsub", "tmul"}
Set(d) == lz' = lz \ {d}
S1 == \E o \in NatBin, d, a, b \in R : Put(o, d, a, b) /\ UNCHANGED lz
S2 == \E o \in {"pneg", "pscale", "pcopy", "pzero", "presize"}, d, a \in R : Put(o, d, a, 0) /\ UNCHANGED lz
S3 == \E o \in TBin, d \in R, a, b \in Strict : Put(o, d, a, b) /\ Set(d)
S4 == \E o \in {"tneg", "tscale", "tzero", "tcopy"}, d \in R, a \in Strict : Put(o, d, a, 0) /\ Set(d)
S5 == \E d, a \in R, b \in Strict : Put("pmulT", d, a, b) /\ UNCHANGED lz      \* polynomial * point values
S6 == \E d, b \in R, a \in Strict : Put("tmulP", d, a, b) /\ Set(d)            \* point values * polynomial
S7 == \E d, a \in R : (Put("ptot", d, a, 0) /\ Set(d)) \/ (Put("ttop", d, a, 0) /\ UNCHANGED lz)
S8 == \E d, a, b \in R : d \in Strict /\ {a, b} \subseteq Strict \ {d} /\ Put("tfma", d, a, b) /\ UNCHANGED lz
S9 == \E d, a, b \in R : {a, b} \subseteq Strict \ {d} /\ Put("tfmaf", d, a, b) /\ lz' = lz \cup {d}
S10 == \E d \in R : \E a, b \in Strict \ {d} : Put("tfmai", d, a, b) /\ Set(d)
Next == Len(hist) < D /\ (S1 \/ S2 \/ S3 \/ S4 \/ S5 \/ S6 \/ S7 \/ S8 \/ S9 \/ S10)
Finish == Len(hist) = D /\ hist' = Append(hist, <<"end", 0, 0, 0, 0>>) /\ UNCHANGED lz
GNext == Next \/ Finish
Emit == Len(hist) = D + 1 => PrintT("BEH " \o ToJson(SubSeq(hist, 1, D)))
=============================================================================
