---------------------------- MODULE MC_Sampling ----------------------------
(* The sampling constructions on a miniature word (W bits), every word of the source explored:          *)
(*  "slice": vectors filled chunk by chunk from successive words, s bits per coordinate, the remainder     *)
(*           from one more word: each source word sequence gives one vector, and all vectors of digits     *)
(*           are hit equally often (uniform and independent coordinates);                                  *)
(*  "reject": the widening multiplication with rejection gives every residue equally often;                *)
(*  "count": the difference of two bit counts has binomial frequencies.                                    *)
EXTENDS Sampling, Arith, Integers, Sequences, FiniteSets, TLC
CONSTANT W
VARIABLES kind, prm, words
vars == <<kind, prm, words>>
Word == 0..(Pow2(W) - 1)
Per(s) == W \div s                          \* coordinates per word
Need == IF kind = "slice" THEN ((prm[2] \div Per(prm[1])) + 1) ELSE 1
Init == /\ \/ kind = "slice" /\ prm \in ({1, 2} \X (1..(2 * W - 1))) /\ prm[2] < 2 * Per(prm[1])
           \/ kind = "reject" /\ prm \in ((1..(Pow2(W) - 1)) \X {0})
           \/ kind = "count" /\ prm \in ((1..(W \div 2)) \X {0})
        /\ words = << >>
Next == Len(words) < Need /\ \E x \in Word : words' = Append(words, x) /\ UNCHANGED <<kind, prm>>
Spec == Init /\ [][Next]_vars

Digit(x, i, s) == (x \div Pow2(s * i)) % Pow2(s)
Vector(ws, s, len) == [i \in 1..len |-> Digit(ws[((i - 1) \div Per(s)) + 1], (i - 1) % Per(s), s)]
(* the vector determines exactly the bits it is made of *)
SliceOk == (kind = "slice" /\ Len(words) = Need) =>
    LET s == prm[1]  len == prm[2]  v == Vector(words, s, len) IN
    /\ Len(v) = len /\ \A i \in 1..len : v[i] \in 0..(Pow2(s) - 1)
    /\ \A k \in 1..Len(words) : LET used == IF k < Len(words) THEN Per(s) ELSE len - Per(s) * (Len(words) - 1) IN
          (* rebuilding the used low bits of each word from the coordinates: a bijection, hence uniform *)
          words[k] % Pow2(s * used) =
             LET RECURSIVE Sum(_)
                 Sum(i) == IF i = used THEN 0 ELSE (v[Per(s) * (k - 1) + i + 1] * Pow2(s * i)) + Sum(i + 1)
             IN Sum(0)
Accepted(x, m) == ((x * m) % Pow2(W)) >= (Pow2(W) - m) % m
Hit(x, m) == (x * m) \div Pow2(W)
RejectOk == (kind = "reject" /\ words = << >>) => LET m == prm[1] IN
    \A v \in 0..(m - 1) : Cardinality({x \in Word : Accepted(x, m) /\ Hit(x, m) = v}) = Pow2(W) \div m
RECURSIVE Ones(_)
Ones(x) == IF x = 0 THEN 0 ELSE (x % 2) + Ones(x \div 2)
CountOk == (kind = "count" /\ words = << >>) => LET n == prm[1]  H == 0..(Pow2(n) - 1)  row == Pascal(2 * n) IN
    \A k \in (-n)..n : BFromInt(Cardinality({<<a, b>> \in H \X H : Ones(a) - Ones(b) = k})) = row[n + k + 1]
(* the tables used for the trace: probabilities sum to one, Gaussian support is symmetric *)
Gs == {[kind |-> "gauss", mean2 |-> 0, sigma10 |-> s, max10 |-> mx] : s \in {10, 20, 32, 40, 80}, mx \in {60, 192, 240}}
ASSUME \A d \in {[kind |-> "binary"], [kind |-> "ternary"], [kind |-> "cbd"]} : SumOver(SupportSet(d), ProbFun(d)) = ProbDen(d)
ASSUME \A d \in Gs : LET f == ProbFun(d) IN
          /\ SumOver(DOMAIN f, f) = ProbDen(d) /\ \A k \in DOMAIN f : -k \in DOMAIN f /\ BLe(f[k], BAdd(f[-k], <<1>>))
ASSUME \A j \in 0..255 : Phi6(j) <= Phi6(j + 1) /\ Phi6(-j) = 1000000 - Phi6(j)
ASSUME ~Near(600, 1000, <<1>>, <<4>>) /\ Near(260, 1000, <<1>>, <<4>>)
=============================================================================
