------------------------------- MODULE Arith -------------------------------
(***************************************************************************)
(* Integer and modular arithmetic used by every other module.              *)
(*                                                                         *)
(* Everything is defined here in plain TLA+ within TLC's 32-bit integers.  *)
(* spec/java/Arith.java overrides some operators with equivalent Java code *)
(* for speed; ArithSelfTest.tla compares the two.                          *)
(*                                                                         *)
(*  - "small" modular arithmetic: moduli below 2^30, values are Int        *)
(*  - "big" naturals: little-endian sequences of base-2^15 limbs without   *)
(*    leading zero limbs (zero is << >>), for 32/64-bit words and products *)
(*  - polynomials: sequences of coefficients, index 1 is X^0               *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)      \* k <= 30

RECURSIVE Log2Ceil(_)
Log2Ceil(n) == IF n <= 1 THEN 0 ELSE 1 + Log2Ceil((n + 1) \div 2)

CeilDiv(a, b) == (a + b - 1) \div b

---------------------------------------------------------------------------
(* Small modular arithmetic, 0 <= a, b < m < 2^30.                         *)

AddMod(a, b, m) == IF a >= m - b THEN a - (m - b) ELSE a + b
SubMod(a, b, m) == IF a >= b THEN a - b ELSE a + (m - b)
NegMod(a, m)    == IF a = 0 THEN 0 ELSE m - a

RECURSIVE MulModP(_, _, _)
MulModP(a, b, m) ==
    IF b = 0 THEN 0
    ELSE LET h == MulModP(a, b \div 2, m)
             d == AddMod(h, h, m)
         IN  IF b % 2 = 1 THEN AddMod(d, a % m, m) ELSE d
MulMod(a, b, m) == MulModP(a % m, b, m)               \* overridden

RECURSIVE PowModP(_, _, _)
PowModP(a, e, m) ==
    IF e = 0 THEN 1 % m
    ELSE LET h == PowModP(a, e \div 2, m)
             s == MulModP(h, h, m)
         IN  IF e % 2 = 1 THEN MulModP(s, a % m, m) ELSE s
PowMod(a, e, m) == PowModP(a, e, m)                   \* overridden

(* An integer (possibly negative) as a residue, and back to (-m/2, m/2].   *)
Residue(a, m)  == a % m
Centered(a, m) == IF a > m \div 2 THEN a - m ELSE a

(* Sum of products modulo m.                                               *)
RECURSIVE DotModP(_, _, _, _)
DotModP(u, v, m, k) ==
    IF k = 0 THEN 0
    ELSE AddMod(DotModP(u, v, m, k - 1), MulModP(u[k] % m, v[k], m), m)
DotMod(u, v, m) == DotModP(u, v, m, Len(u))           \* overridden

---------------------------------------------------------------------------
(* Vectors and the negacyclic ring Z_m[X]/(X^n + 1).                       *)

IsVec(u, n, m) == Len(u) = n /\ \A i \in 1..n : u[i] >= 0 /\ u[i] < m
Zero(n)        == [i \in 1..n |-> 0]
VAdd(u, v, m)  == [i \in 1..Len(u) |-> AddMod(u[i], v[i], m)]
VSub(u, v, m)  == [i \in 1..Len(u) |-> SubMod(u[i], v[i], m)]
VNeg(u, m)     == [i \in 1..Len(u) |-> NegMod(u[i], m)]
VScale(u, s, m)== [i \in 1..Len(u) |-> MulMod(u[i], s, m)]
VHad(u, v, m)  == [i \in 1..Len(u) |-> MulMod(u[i], v[i], m)]
VMod(u, m)     == [i \in 1..Len(u) |-> u[i] % m]

(* Coefficient k of u * v in Z_m[X]/(X^n+1).                               *)
RECURSIVE ConvCoef(_, _, _, _, _)
ConvCoef(u, v, m, k, i) ==
    IF i = 0 THEN 0
    ELSE LET n == Len(u)
             j == IF i <= k THEN k - i + 1 ELSE n + k - i + 1
             p == MulModP(u[i], v[j], m)
             r == ConvCoef(u, v, m, k, i - 1)
         IN  IF i <= k THEN AddMod(r, p, m) ELSE SubMod(r, p, m)
NegMulP(u, v, m) == [k \in 1..Len(u) |-> ConvCoef(u, v, m, k, Len(u))]
NegMul(u, v, m)  == NegMulP(u, v, m)                  \* overridden

(* u * X^d, any d >= 0.                                                    *)
MulMono(u, d, m) ==
    LET n == Len(u)
        e == d % (2 * n)
    IN  [k \in 1..n |->
            LET s == (k - 1) - e                       \* source index, maybe negative
                t == IF s >= 0 THEN s ELSE s + 2 * n   \* in [0, 2n)
            IN  IF t < n THEN u[t + 1] ELSE NegMod(u[t - n + 1], m)]

(* Value of the polynomial at x (Horner).                                  *)
RECURSIVE EvalFrom(_, _, _, _)
EvalFrom(u, x, m, i) ==
    IF i > Len(u) THEN 0
    ELSE AddMod(u[i] % m, MulModP(x, EvalFrom(u, x, m, i + 1), m), m)
EvalPoly(u, x, m) == EvalFrom(u, x, m, 1)             \* overridden

RECURSIVE BitRev(_, _)
BitRev(i, k) == IF k = 0 THEN 0
                ELSE (i % 2) * Pow2(k - 1) + BitRev(i \div 2, k - 1)

(* The number theoretic transform: values at the odd powers of the root in *)
(* bit-reversed order.  n = 2^k, root has order 2n.                        *)
NttP(u, root, k, m) ==
    [i \in 1..Len(u) |-> EvalPoly(u, PowMod(root, 2 * BitRev(i - 1, k) + 1, m), m)]
Ntt(u, root, k, m) == NttP(u, root, k, m)             \* overridden

---------------------------------------------------------------------------
(* Big naturals.                                                           *)

LB == 32768
RECURSIVE BNorm(_)
BNorm(x) == IF x = << >> THEN x
            ELSE IF x[Len(x)] = 0 THEN BNorm(SubSeq(x, 1, Len(x) - 1)) ELSE x

RECURSIVE BFromInt(_)
BFromInt(n) == IF n = 0 THEN << >> ELSE <<n % LB>> \o BFromInt(n \div LB)

RECURSIVE BAddC(_, _, _)
BAddC(x, y, c) ==
    IF x = << >> /\ y = << >> THEN (IF c = 0 THEN << >> ELSE <<c>>)
    ELSE LET a == IF x = << >> THEN 0 ELSE Head(x)
             b == IF y = << >> THEN 0 ELSE Head(y)
             s == a + b + c
         IN  <<s % LB>> \o BAddC(IF x = << >> THEN x ELSE Tail(x),
                                 IF y = << >> THEN y ELSE Tail(y), s \div LB)
BAddP(x, y) == BNorm(BAddC(x, y, 0))
BAdd(x, y)  == BAddP(x, y)                             \* overridden

RECURSIVE BSubB(_, _, _)
BSubB(x, y, c) ==                                      \* x >= y + c
    IF x = << >> THEN << >>
    ELSE LET b == IF y = << >> THEN 0 ELSE Head(y)
             d == Head(x) - b - c
         IN  <<IF d < 0 THEN d + LB ELSE d>>
             \o BSubB(Tail(x), IF y = << >> THEN y ELSE Tail(y), IF d < 0 THEN 1 ELSE 0)
BSubP(x, y) == BNorm(BSubB(x, y, 0))                   \* requires x >= y
BSub(x, y)  == BSubP(x, y)                             \* overridden

RECURSIVE BCmpAt(_, _, _)
BCmpAt(x, y, i) == IF i = 0 THEN 0
                   ELSE IF x[i] < y[i] THEN -1
                   ELSE IF x[i] > y[i] THEN 1 ELSE BCmpAt(x, y, i - 1)
BCmp(x, y) == IF Len(x) < Len(y) THEN -1
              ELSE IF Len(x) > Len(y) THEN 1 ELSE BCmpAt(x, y, Len(x))
BLt(x, y) == BCmp(x, y) = -1
BLe(x, y) == BCmp(x, y) # 1

RECURSIVE BMulLimb(_, _, _)
BMulLimb(x, d, c) ==
    IF x = << >> THEN (IF c = 0 THEN << >> ELSE <<c>>)
    ELSE LET p == Head(x) * d + c IN <<p % LB>> \o BMulLimb(Tail(x), d, p \div LB)
RECURSIVE BMulP(_, _)
BMulP(x, y) ==
    IF x = << >> \/ y = << >> THEN << >>
    ELSE BNorm(BAddP(BMulLimb(x, Head(y), 0),
                     LET t == BMulP(x, Tail(y)) IN IF t = << >> THEN t ELSE <<0>> \o t))
BMul(x, y) == BMulP(x, y)                              \* overridden

(* x mod y by binary long division over the bits of x, most significant    *)
(* limb first.                                                             *)
RECURSIVE BModBits(_, _, _, _)
BModBits(r, d, bit, y) ==                              \* shift bits of limb d into r
    IF bit = 0 THEN r
    ELSE LET b  == (d \div Pow2(bit - 1)) % 2
             r2 == BAddP(BAddP(r, r), BFromInt(b))
         IN  BModBits(IF BLe(y, r2) THEN BSubP(r2, y) ELSE r2, d, bit - 1, y)
RECURSIVE BModLimbs(_, _, _, _)
BModLimbs(r, x, i, y) ==
    IF i = 0 THEN r ELSE BModLimbs(BModBits(r, x[i], 15, y), x, i - 1, y)
BModP(x, y) == BModLimbs(<< >>, x, Len(x), y)
BMod(x, y)  == BModP(x, y)                             \* overridden

(* 2^k *)
RECURSIVE BPow2(_)
BPow2(k) == IF k < 15 THEN <<Pow2(k)>> ELSE <<0>> \o BPow2(k - 15)

(* floor(x / y), y > 0 *)
RECURSIVE BDivAt(_, _, _)
BDivAt(r, y, i) ==
    IF i < 0 THEN << >>
    ELSE LET s == BMulP(y, BPow2(i))
         IN  IF BLe(s, r) THEN BAddP(BPow2(i), BDivAt(BSubP(r, s), y, i - 1)) ELSE BDivAt(r, y, i - 1)
BDivP(x, y) == BDivAt(x, y, 15 * Len(x))
BDiv(x, y)  == BDivP(x, y)                             \* overridden

RECURSIVE BHalf(_)
BHalf(x) ==                                            \* floor(x / 2)
    IF x = << >> THEN x
    ELSE BNorm(<<(Head(x) \div 2)
                 + (IF Len(x) > 1 /\ x[2] % 2 = 1 THEN 16384 ELSE 0)>> \o BHalf(Tail(x)))
BOdd(x) == x # << >> /\ Head(x) % 2 = 1

RECURSIVE BPowModP(_, _, _)
BPowModP(x, e, m) ==
    IF e = << >> THEN BModP(<<1>>, m)
    ELSE LET h == BPowModP(x, BHalf(e), m)
             s == BModP(BMulP(h, h), m)
         IN  IF BOdd(e) THEN BModP(BMulP(s, x), m) ELSE s
BPowMod(x, e, m) == BPowModP(x, e, m)                  \* overridden

BMulMod(x, y, m) == BMod(BMul(x, y), m)
BAddMod(x, y, m) == BMod(BAdd(x, y), m)
BSubMod(x, y, m) == BMod(BSub(BAdd(BMod(x, m), m), BMod(y, m)), m)

RECURSIVE BToInt(_)
BToInt(x) == IF x = << >> THEN 0 ELSE Head(x) + (LB * BToInt(Tail(x)))      \* x < 2^31

IsBig(x) == /\ \A i \in 1..Len(x) : x[i] >= 0 /\ x[i] < LB
            /\ (x = << >> \/ x[Len(x)] # 0)
=============================================================================
