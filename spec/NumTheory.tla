----------------------------- MODULE NumTheory -----------------------------
(* Greatest common divisors, primality, roots of unity and bit reversal over big naturals. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE Arith

B1 == <<1>>
B2 == <<2>>

RECURSIVE BGcdP(_, _)
BGcdP(x, y) == IF y = << >> THEN x ELSE BGcdP(y, BModP(x, y))
BGcd(x, y) == BGcdP(x, y)                                      \* overridden

(* a*x + b*y = g for signed a, b given as <<negative, magnitude>> *)
Bezout(x, y, a, b, g) ==
    LET p == BMul(a[2], x)  q == BMul(b[2], y) IN
    CASE ~a[1] /\ ~b[1] -> BAdd(p, q) = g
      [] ~a[1] /\  b[1] -> p = BAdd(q, g)
      []  a[1] /\ ~b[1] -> q = BAdd(p, g)
      []  a[1] /\  b[1] -> BAdd(BAdd(p, q), g) = << >>

(* ---- primality *)
IsPrimeInt(n) == n >= 2 /\ \A d \in 2..n : (d * d <= n => n % d # 0)
RECURSIVE NoDivisor(_, _)
NoDivisor(n, d) == IF d * d > n THEN TRUE ELSE IF n % d = 0 THEN FALSE ELSE NoDivisor(n, d + 1)
IsPrimeFast(n) == n >= 2 /\ NoDivisor(n, 2)                    \* n < 2^15

(* n - 1 = 2^s * q, q odd: <<s, q>> *)
RECURSIVE TwoAdic(_, _)
TwoAdic(s, q) == IF BOdd(q) THEN <<s, q>> ELSE TwoAdic(s + 1, BHalf(q))
RECURSIVE SquaresToMinus1(_, _, _)
SquaresToMinus1(x, k, n) == IF k = 0 THEN FALSE
                            ELSE IF x = BSub(n, B1) THEN TRUE
                            ELSE SquaresToMinus1(BMod(BMul(x, x), n), k - 1, n)
(* odd n > 2 is a strong probable prime to base a *)
StrongTo(n, a) == LET t == TwoAdic(0, BSub(n, B1))
                      x == BPowMod(BMod(a, n), t[2], n)
                  IN x = B1 \/ SquaresToMinus1(x, t[1], n)
(* The first twelve primes as bases decide primality below 3.3 * 10^24.     *)
Bases == {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}
BIsPrimeP(n) ==
    IF BLt(n, <<1600>>)
    THEN IF n = << >> THEN FALSE ELSE IsPrimeFast(n[1])
    ELSE BOdd(n) /\ \A a \in Bases : StrongTo(n, BFromInt(a))
BIsPrime(n) == BIsPrimeP(n)                                     \* overridden

(* ---- roots of unity of order d = 2^k, k >= 1, modulo an odd prime *)
HasOrder(r, d, m) == BLt(r, m) /\ BPowMod(r, BHalf(d), m) = BSub(m, B1)
RootExists(d, m) == BMod(BSub(m, B1), d) = << >>
(* the primitive d-th roots are the odd powers of any one of them *)
RECURSIVE MinPow(_, _, _, _, _)
MinPow(cur, sq, left, best, m) ==
    IF left = 0 THEN best
    ELSE MinPow(BMod(BMul(cur, sq), m), sq, left - 1, IF BLt(cur, best) THEN cur ELSE best, m)
MinRootP(r, half, m) == MinPow(r, BMod(BMul(r, r), m), half, r, m)
MinRoot(r, half, m) == MinRootP(r, half, m)                      \* overridden; half = d / 2
IsMinimalRoot(r, half, m) == MinRoot(r, half, m) = r

(* ---- bit i of a natural, least significant bit 0 *)
Bit(x, i) == LET j == (i \div 15) + 1 IN IF j > Len(x) THEN 0 ELSE (x[j] \div Pow2(i % 15)) % 2
Reversed(x, bits, y) == BLt(y, BPow2(bits)) /\ \A i \in 0..(bits - 1) : Bit(y, i) = Bit(x, bits - 1 - i)
=============================================================================
