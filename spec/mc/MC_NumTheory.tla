---------------------------- MODULE MC_NumTheory ----------------------------
(* The binary extended Euclid as an abstract machine for every pair of operands below Top (the      *)
(* Bezout invariant and the bounds of the coefficients that make the fixed-width implementation      *)
(* exact), the strong-probable-prime error bound for every odd composite below 4*Top, and the facts  *)
(* about roots of unity the trace specification relies on.                                           *)
EXTENDS NumTheory, Arith, Integers, Sequences, FiniteSets, TLC
CONSTANT Top
VARIABLES x, y, u, v, a, b, c, d, done
vars == <<x, y, u, v, a, b, c, d, done>>
Init == /\ x \in 1..Top /\ y \in 1..Top /\ (x % 2 = 1 \/ y % 2 = 1)
        /\ u = x /\ v = y /\ a = 1 /\ b = 0 /\ c = 0 /\ d = 1 /\ done = FALSE
Frame == UNCHANGED <<x, y>>
HalfOf(p, q) == IF p % 2 = 0 /\ q % 2 = 0 THEN <<p \div 2, q \div 2>>
                ELSE IF q > x THEN <<(p + y) \div 2, (q - x) \div 2>>
                ELSE <<(p - y) \div 2, (q + x) \div 2>>
HalveU == ~done /\ u % 2 = 0 /\ LET h == HalfOf(a, b) IN u' = u \div 2 /\ a' = h[1] /\ b' = h[2]
          /\ UNCHANGED <<v, c, d, done>> /\ Frame
HalveV == ~done /\ u % 2 = 1 /\ v % 2 = 0 /\ LET h == HalfOf(c, d) IN v' = v \div 2 /\ c' = h[1] /\ d' = h[2]
          /\ UNCHANGED <<u, a, b, done>> /\ Frame
Sub == /\ ~done /\ u % 2 = 1 /\ v % 2 = 1
       /\ IF u >= v THEN u' = u - v /\ a' = a - c /\ b' = b - d /\ UNCHANGED <<v, c, d>> /\ done' = (u' = 0)
          ELSE v' = v - u /\ c' = c - a /\ d' = d - b /\ UNCHANGED <<u, a, b, done>>
       /\ Frame
Next == HalveU \/ HalveV \/ Sub
Spec == Init /\ [][Next]_vars
Lines == a * x + b * y = u /\ c * x + d * y = v
RECURSIVE G(_, _)
G(p, q) == IF q = 0 THEN p ELSE G(q, p % q)
Final == done => v = G(x, y)
Mx == Max2(x, y)
(* two bits of headroom suffice *)
Bounded == \A k \in {a, b, c, d} : k <= 2 * Mx /\ k >= -2 * Mx

(* facts, checked once *)
Liars(n) == {w \in 2..(n - 1) : StrongTo(BFromInt(n), BFromInt(w))}
ASSUME \A n \in 2..600 : BIsPrime(BFromInt(n)) = IsPrimeInt(n) /\ BIsPrimeP(BFromInt(n)) = IsPrimeInt(n)
ASSUME \A n \in {k \in 9..(4 * Top) : k % 2 = 1 /\ ~IsPrimeInt(k)} : 4 * Cardinality(Liars(n)) <= n
ASSUME \A n \in {2047, 49141, 65281} \cup {1373, 32749} :
          BIsPrimeP(BFromInt(n)) = BIsPrime(BFromInt(n)) /\ BIsPrime(BFromInt(n)) = IsPrimeInt(n)
ASSUME \A p, q \in 0..60 : BGcd(BFromInt(p), BFromInt(q)) = BFromInt(G(p, q)) /\ BGcdP(BFromInt(p), BFromInt(q)) = BFromInt(G(p, q))
ASSUME \A p \in {17, 41, 97, 193} : \A k \in 1..5 :
         LET dd == Pow2(k)  R == {w \in 1..(p - 1) : HasOrder(BFromInt(w), BFromInt(dd), BFromInt(p))} IN
         /\ (R # {}) = RootExists(BFromInt(dd), BFromInt(p))
         /\ R = {w \in 1..(p - 1) : PowMod(w, dd, p) = 1 /\ \A e \in 1..(dd - 1) : PowMod(w, e, p) # 1}
         /\ \A w \in R : LET mr == MinRoot(BFromInt(w), dd \div 2, BFromInt(p)) IN
               mr = MinRootP(BFromInt(w), dd \div 2, BFromInt(p)) /\ mr = BFromInt(CHOOSE z \in R : \A t \in R : z <= t)
ASSUME \A k \in 1..6 : \A i \in 0..(Pow2(k) - 1) : Reversed(BFromInt(i), k, BFromInt(BitRev(i, k)))
=============================================================================
