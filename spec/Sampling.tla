------------------------------ MODULE Sampling ------------------------------
(***************************************************************************)
(* The declared distributions.  A distribution d is a record:              *)
(*   kind "binary" | "ternary" | "cbd" | "uniform" | "gauss"               *)
(*   gauss: mean2 = 2 * mean, sigma10 = 10 * standard deviation,           *)
(*          max10 = 10 * bound on the distance to the mean                 *)
(* Values are centred integers.  Probabilities are fractions num / den of  *)
(* big naturals.                                                           *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE Arith
LOCAL INSTANCE TLC

(* 10^6 * Phi(j / 32), j = 0 .. 256 *)
PhiTab == <<
    500000, 512465, 524918, 537346, 549738, 562082, 574366, 586578, 598706, 610741, 622670, 634483, 646170, 657721, 669126, 680376,
    691462, 702377, 713112, 723660, 734014, 744168, 754116, 763853, 773373, 782672, 791748, 800595, 809213, 817598, 825749, 833665,
    841345, 848788, 855996, 862968, 869705, 876211, 882485, 888530, 894350, 899947, 905324, 910485, 915434, 920175, 924712, 929050,
    933193, 937146, 940915, 944504, 947919, 951164, 954246, 957170, 959941, 962564, 965046, 967390, 969604, 971691, 973658, 975509,
    977250, 978885, 980420, 981859, 983207, 984468, 985647, 986748, 987776, 988733, 989625, 990455, 991226, 991941, 992605, 993221,
    993790, 994317, 994804, 995253, 995668, 996049, 996401, 996724, 997020, 997292, 997542, 997771, 997980, 998171, 998346, 998505,
    998650, 998782, 998903, 999012, 999111, 999201, 999282, 999356, 999423, 999483, 999538, 999587, 999631, 999671, 999706, 999739,
    999767, 999793, 999816, 999837, 999856, 999872, 999887, 999900, 999912, 999922, 999931, 999939, 999947, 999953, 999959, 999964,
    999968, 999972, 999976, 999979, 999981, 999984, 999986, 999988, 999989, 999991, 999992, 999993, 999994, 999995, 999995, 999996,
    999997, 999997, 999997, 999998, 999998, 999998, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 1000000, 1000000, 1000000,
    1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000,
    1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000,
    1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000,
    1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000,
    1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000,
    1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000,
    1000000>>
Phi6(j) == IF j >= 0 THEN (IF j > 256 THEN 1000000 ELSE PhiTab[j + 1])
           ELSE (IF j < -256 THEN 0 ELSE 1000000 - PhiTab[1 - j])

(* 32 * (x - mean) / sigma for x = half / 2, rounded down                  *)
ZOf(half, d) == (160 * (half - d.mean2)) \div d.sigma10
(* the same for the truncation points mean - max and mean + max            *)
ZMax(d) == (32 * d.max10) \div d.sigma10
Clamp(z, d) == IF z > ZMax(d) THEN ZMax(d) ELSE IF z < -ZMax(d) THEN -ZMax(d) ELSE z
(* probability (in 10^-6, before renormalisation) of rounding to k         *)
GaussNum(k, d) == Phi6(Clamp(ZOf(2 * k + 1, d), d)) - Phi6(Clamp(ZOf(2 * k - 1, d), d))
GaussDen(d) == Phi6(ZMax(d)) - Phi6(-ZMax(d))
(* the rounded value is within the bound of the mean, up to the rounding   *)
GaussIn(k, d) == LET dist10 == 10 * k - 5 * d.mean2 IN
                 IF dist10 >= 0 THEN dist10 <= d.max10 + 5 ELSE -dist10 <= d.max10 + 5

(* Row n of Pascal's triangle.                                             *)
RECURSIVE Pascal(_)
Pascal(n) == IF n = 0 THEN << <<1>> >>
             ELSE CHOOSE t \in {TLCEval([i \in 1..(n + 1) |-> IF i = 1 \/ i = n + 1 THEN <<1>> ELSE BAdd(r[i - 1], r[i])]) : r \in {Pascal(n - 1)}} : TRUE
CbdBits == 21
CbdRow == Pascal(2 * CbdBits)

InSupport(k, d) ==
    CASE d.kind = "binary"  -> k \in {0, 1}
      [] d.kind = "ternary" -> k \in {-1, 0, 1}
      [] d.kind = "cbd"     -> k \in (-CbdBits)..CbdBits
      [] d.kind = "gauss"   -> GaussIn(k, d)
      [] d.kind = "uniform" -> k \in 0..(d.m - 1)               \* small moduli
SupportSet(d) ==
    CASE d.kind = "binary"  -> {0, 1}
      [] d.kind = "ternary" -> {-1, 0, 1}
      [] d.kind = "cbd"     -> (-CbdBits)..CbdBits
      [] d.kind = "gauss"   -> {k \in ((d.mean2 - 2) \div 2 - d.max10 \div 10 - 1)..((d.mean2 + 3) \div 2 + d.max10 \div 10 + 1) : GaussIn(k, d)}
      [] d.kind = "uniform" -> 0..(d.m - 1)
(* Numerators for every k of the support, as a function; common denominator ProbDen *)
ProbOf(k, d, row) ==
      CASE d.kind = "binary"  -> <<1>>
        [] d.kind = "ternary" -> IF k = 0 THEN <<2>> ELSE <<1>>
        [] d.kind = "cbd"     -> row[CbdBits + k + 1]
        [] d.kind = "gauss"   -> IF d.sigma10 = 0 THEN (IF 2 * k = d.mean2 THEN <<1>> ELSE << >>) ELSE BFromInt(GaussNum(k, d))
        [] d.kind = "uniform" -> <<1>>
(* (TLC evaluates a value bound by CHOOSE from a singleton only once)      *)
ProbFun(d) == CHOOSE f \in { TLCEval([k \in SupportSet(d) |-> ProbOf(k, d, row)]) :
                              row \in {IF d.kind = "cbd" THEN CbdRow ELSE << >>} } : TRUE
ProbDen(d) ==
    CASE d.kind = "binary"  -> <<2>>
      [] d.kind = "ternary" -> <<4>>
      [] d.kind = "cbd"     -> BPow2(2 * CbdBits)
      [] d.kind = "gauss"   -> IF d.sigma10 = 0 THEN <<1>> ELSE BFromInt(GaussDen(d))
      [] d.kind = "uniform" -> BFromInt(d.m)

(* Categories for position and pair statistics: the sign for the symmetric *)
(* distributions, quarters of the range for uniform values.                *)
NCat(d) == IF d.kind = "uniform" \/ d.kind = "uniformbig" THEN 4 ELSE 3
CatOf(k, d) == IF d.kind = "uniform" THEN ((4 * k) \div d.m) + 1
               ELSE IF k < 0 THEN 1 ELSE IF k = 0 THEN 2 ELSE 3
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN << >> ELSE LET k == CHOOSE x \in S : TRUE IN BAdd(f[k], SumOver(S \ {k}, f))
CatNums(d) == IF d.kind = "uniformbig" THEN << <<1>>, <<1>>, <<1>>, <<1>> >>
              ELSE IF d.kind = "uniform" THEN
                   LET lo(c) == CeilDiv((c - 1) * d.m, 4) IN [c \in 1..4 |-> BFromInt(lo(c + 1) - lo(c))]
              ELSE CHOOSE t \in {TLCEval([c \in 1..3 |-> SumOver({k \in DOMAIN f : CatOf(k, d) = c}, f)]) : f \in {ProbFun(d)}} : TRUE
CatDen(d) == IF d.kind = "uniformbig" THEN <<4>> ELSE ProbDen(d)

(* n successes in k trials of probability p/q: within eight standard       *)
(* deviations plus twelve of the expectation                               *)
Near(n, k, p, q) ==
    LET nq == BMul(BFromInt(n), q)  kp == BMul(BFromInt(k), p)
        dist == IF BLe(kp, nq) THEN BSub(nq, kp) ELSE BSub(kp, nq)
        slack == BMul(<<12>>, q)
    IN  BLe(dist, slack) \/
        LET e == BSub(dist, slack) IN
        BLe(BMul(e, e), BMul(BMul(<<64>>, BMul(p, BSub(q, p))), BFromInt(k)))
=============================================================================
