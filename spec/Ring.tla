------------------------------- MODULE Ring -------------------------------
(***************************************************************************)
(* The ring Z_m[X]/(X^n+1) and its point-value copy, for moduli of any     *)
(* size: coefficients and the modulus are big naturals (Arith.tla),        *)
(* polynomials are sequences, index 1 is X^0.  spec/java/Ring.java speeds  *)
(* up P* operators; RingSelfTest compares.                                 *)
(***************************************************************************)
EXTENDS Arith
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

BNeg(a, m) == BSubMod(<< >>, a, m)
Idx(u) == 1..Len(u)
PCanonP(u, n, m) == Len(u) = n /\ \A i \in Idx(u) : IsBig(u[i]) /\ BLt(u[i], m)
PCanon(u, n, m)  == PCanonP(u, n, m)
PBelow(u, k, m)  == \A i \in Idx(u) : BLt(u[i], BMul(BFromInt(k), m))   \* lazily reduced: below k*m
PZero(n) == [i \in 1..n |-> << >>]
POnes(n) == [i \in 1..n |-> <<1>>]
POne(n)  == [i \in 1..n |-> IF i = 1 THEN <<1>> ELSE << >>]

PAddP(u, v, m) == [i \in Idx(u) |-> BAddMod(u[i], v[i], m)]
PSubP(u, v, m) == [i \in Idx(u) |-> BSubMod(u[i], v[i], m)]
PHadP(u, v, m) == [i \in Idx(u) |-> BMulMod(u[i], v[i], m)]
PNormP(u, m)   == [i \in Idx(u) |-> BMod(u[i], m)]
PScaleP(u, s, m) == [i \in Idx(u) |-> BMulMod(u[i], s, m)]
PAdd(u, v, m) == PAddP(u, v, m)
PSub(u, v, m) == PSubP(u, v, m)
PHad(u, v, m) == PHadP(u, v, m)                       \* product of point values
PNorm(u, m)   == PNormP(u, m)
PScale(u, s, m) == PScaleP(u, s, m)
PNeg(u, m)    == PSub(PZero(Len(u)), u, m)

RECURSIVE PConv(_, _, _, _, _)
PConv(u, v, m, k, i) ==                               \* coefficient k (from 0), terms 1..i
    IF i = 0 THEN << >>
    ELSE LET j == k - (i - 1)
             p == BMul(u[i], IF j >= 0 THEN v[j + 1] ELSE v[j + Len(u) + 1])
             r == PConv(u, v, m, k, i - 1)
         IN  IF j >= 0 THEN BAddMod(r, p, m) ELSE BSubMod(r, p, m)
PMulP(u, v, m) == [k \in Idx(u) |-> PConv(u, v, m, k - 1, Len(u))]
PMul(u, v, m)  == PMulP(u, v, m)

(* c * X^d, d >= 0 *)
PMonomial(n, c, d, m) ==
    LET e == d % (2 * n)
    IN  [i \in 1..n |-> IF i - 1 = e THEN c ELSE IF i - 1 = e - n THEN BNeg(c, m) ELSE << >>]

RECURSIVE PEvalFrom(_, _, _, _)
PEvalFrom(u, x, m, i) ==
    IF i > Len(u) THEN << >>
    ELSE BMod(BAdd(u[i], BMul(x, PEvalFrom(u, x, m, i + 1))), m)
PEvalP(u, x, m) == PEvalFrom(u, x, m, 1)
PEval(u, x, m)  == PEvalP(u, x, m)

(* values at the odd powers of the root, bit-reversed order; n = 2^k *)
PNttP(u, root, k, m) ==
    [i \in Idx(u) |-> PEvalP(u, BPowMod(root, BFromInt(2 * BitRev(i - 1, k) + 1), m), m)]
PNtt(u, root, k, m)  == PNttP(u, root, k, m)

(* root^1, root^2 ... in order, starting with root^0 *)
RECURSIVE PPowersP(_, _, _)
PPowersP(x, cnt, m) ==
    IF cnt = 0 THEN << >>
    ELSE IF cnt = 1 THEN <<BMod(<<1>>, m)>>
    ELSE LET r == PPowersP(x, cnt - 1, m) IN Append(r, BMulMod(r[cnt - 1], x, m))
PPowers(x, cnt, m) == PPowersP(x, cnt, m)

=============================================================================
