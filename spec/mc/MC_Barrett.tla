----------------------------- MODULE MC_Barrett -----------------------------
(* Barrett reduction as the code computes it, on B-bit words: the quotient estimate loses at most one,  *)
(* so the lazy result is congruent and below 2m for every modulus with two spare bits and every word /  *)
(* double word.  The Shoup product is the same argument with the precomputed quotient floor(w * b / m).  *)
EXTENDS Integers, TLC
CONSTANT B
b == 2^B
VARIABLES m, hi, lo, k, q
vars == <<m, hi, lo, k, q>>
Ratio(mm) == (b * b) \div mm
r1 == Ratio(m) \div b
r0 == Ratio(m) % b
(* one word: q3 = hw(x * ratio1 + hw(x * ratio0)) *)
Q1(x) == ((x * r1) + ((x * r0) \div b)) \div b
(* two words, the column sums of the code, all modulo the word size *)
Q2(x1, x0) ==
    LET ah  == (x0 * r0) \div b
        bb  == x0 * r1 + ah
        c   == x1 * r0
        d   == (x1 * r1) % b
        bch == (bb \div b) + (c \div b) + (((bb % b) + (c % b)) \div b)
    IN  (d + bch) % b
Wr(x) == x % b
Lazy1(x)      == Wr(x - Wr(Q1(x) * m))
Lazy2(x1, x0) == Wr(x0 - Wr(Q2(x1, x0) * m))
Shoup(w, x)   == Wr(Wr(w * x) - Wr(((((w * b) \div m) * x) \div b) * m))

Init == m \in 2..(b \div 4 - 1) /\ hi = 0 /\ lo = 0 /\ k = "one" /\ q = 0
Next == \/ k = "one" /\ lo = 0 /\ \E x \in 0..(b - 1) : lo' = x /\ q' = Lazy1(x) /\ UNCHANGED <<m, hi, k>>
        \/ k = "one" /\ lo = 0 /\ \E y \in 0..(b - 1) : k' = "two" /\ hi' = y /\ lo' = 0 /\ q' = Lazy2(y, 0) /\ UNCHANGED m
        \/ k = "two" /\ \E x \in 0..(b - 1) : lo' = x /\ q' = Lazy2(hi, x) /\ UNCHANGED <<m, hi, k>>
        \/ k = "one" /\ lo = 0 /\ \E w \in 0..(m - 1) : k' = "shoup" /\ hi' = w /\ lo' = 0 /\ q' = Shoup(w, 0) /\ UNCHANGED m
        \/ k = "shoup" /\ \E x \in 0..(b - 1) : lo' = x /\ q' = Shoup(hi, x) /\ UNCHANGED <<m, hi, k>>
Spec == Init /\ [][Next]_vars

LazyRange == q < 2 * m
Congruent == q % m = (CASE k = "one" -> lo [] k = "two" -> hi * b + lo [] k = "shoup" -> hi * lo) % m
=============================================================================
