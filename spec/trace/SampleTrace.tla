---------------------------- MODULE SampleTrace ----------------------------
(* Statistics and edge cases recorded from every sampler. *)
EXTENDS TraceKit, Sampling, Arith, FiniteSets, SequencesExt
Init == TkInit
D == E.d

(* counts[i]: how often the centred value lo + i - 1 was drawn *)
HistOk(f, q, n) ==
    /\ \A i \in 1..n : E.counts[i] > 0 => InSupport(E.lo + i - 1, D)
    /\ \A k \in DOMAIN f : Near(IF k >= E.lo /\ k < E.lo + n THEN E.counts[k - E.lo + 1] ELSE 0, E.k, f[k], q)
Hist == /\ Eat("hist")
        /\ E.outside = 0
        /\ \A f \in {ProbFun(D)} : \A q \in {ProbDen(D)} : HistOk(f, q, Len(E.counts))
(* uniform over a large modulus: range, and 32 buckets by residue modulo 3 *)
Big == /\ Eat("big")
       /\ BLt(E.max, E.m)
       /\ E.hi32 >= 30                                   \* the whole range is reached
       /\ \A i \in 1..Len(E.cells) : Near(E.cells[i], E.k, <<1>>, <<96>>)
       /\ Len(E.cells) = 96
(* one event per position: counts by category *)
Pos == /\ Eat("pos")
       /\ Len(E.counts) = E.len
       /\ \A c \in {CatNums(D)} : \A q \in {CatDen(D)} :
             \A i \in 1..E.len : \A j \in 1..NCat(D) : Near(E.counts[i][j], E.k, c[j], q)
(* joint counts of two positions: cells by category of the first, then of the second *)
PairsOk(p, q2, n2) == \A i \in 1..Len(E.rows) : /\ Len(E.rows[i]) = n2
                                                /\ \A j \in 1..n2 : Near(E.rows[i][j], E.k, p[j], q2)
Cells(c, n) == TLCEval([j \in 1..(n * n) |-> BMul(c[((j - 1) \div n) + 1], c[((j - 1) % n) + 1])])
Pairs == /\ Eat("pairs")
         /\ \A c \in {CatNums(D)} : \A p \in {Cells(c, NCat(D))} : \A q2 \in {BMul(CatDen(D), CatDen(D))} :
               PairsOk(p, q2, NCat(D) * NCat(D))
(* the least and the most pairs of equal values over all distances, and of *)
(* values that cancel (the same probability where the law is symmetric)    *)
RECURSIVE SqSum(_)
SqSum(v) == IF v = << >> THEN << >> ELSE BAdd(BMul(v[1], v[1]), SqSum(Tail(v)))
Flat(f) == LET s == SetToSeq(DOMAIN f) IN [i \in 1..Len(s) |-> f[s[i]]]
Uni == D.kind \in {"uniform", "uniformbig"}
Symmetric == D.kind \in {"ternary", "cbd"} \/ (D.kind = "gauss" /\ D.mean2 = 0)
Long == /\ Eat("long")
        /\ \A p \in {SqSum(IF Uni THEN CatNums(D) ELSE Flat(ProbFun(D)))} :
           \A q \in {BMul(CatDen(D), CatDen(D))} :
              /\ \A i \in 1..2 : Near(E.eq[i], E.k, p, q)
              /\ Symmetric => \A i \in 1..2 : Near(E.neg[i], E.k, p, q)
(* the same source gives the same values; the length is as asked *)
Same == Eat("same") /\ E.equal /\ E.len = E.want
(* accepted and refused parameters: classes <<sign of std_dev, finite mean, finite std_dev, bound vs std_dev>> *)
Ctor == /\ Eat("ctor")
        /\ E.ok = (E.meanfinite /\ E.stdfinite /\ ~E.stdneg /\ E.bound \in {"default", "above"})
(* an accepted sampler reports its parameters (in thousandths) *)
Acc == Eat("acc") /\ E.mean = E.wmean /\ E.std = E.wstd /\ E.max = E.wmax /\ (E.cbd => (E.wmean = 0 /\ E.wstd = 3200))
Next == Hist \/ Big \/ Pos \/ Pairs \/ Long \/ Same \/ Ctor \/ Acc \/ AtEnd
=============================================================================
