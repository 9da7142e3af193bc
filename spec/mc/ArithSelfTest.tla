--------------------------- MODULE ArithSelfTest ---------------------------
(* The Java overrides agree with the TLA+ definitions on a grid of values,  *)
(* and the definitions satisfy the ring laws they are supposed to define.   *)
EXTENDS Arith, Modulus, Integers, Sequences, TLC
VARIABLE k
M == <<2, 3, 17, 97, 257, 12289, 132120577, 1073741789>>
Vals(m) == {v \in {0, 1, 2, 3, m \div 2, m - 2, m - 1, 1000003 % m, 123456789 % m} : v >= 0 /\ v < m}
Polys(n, m) == {[i \in 1..n |-> (s * i * i + 7 * s + i) % m] : s \in {0, 1, 5, 4093}}
SmallOk(m) ==
    /\ \A a, b \in Vals(m) : MulMod(a, b, m) = MulModP(a, b, m)
    /\ \A a \in Vals(m) : \A e \in {0, 1, 2, 5, 1000} : PowMod(a, e, m) = PowModP(a, e, m)
    /\ \A n \in {1, 2, 4} : \A u, v \in Polys(n, m) :
        /\ NegMul(u, v, m) = NegMulP(u, v, m)
        /\ DotMod(u, v, m) = DotModP(u, v, m, n)
        /\ NegMul(u, v, m) = NegMul(v, u, m)
        /\ \A x \in Vals(m) : EvalPoly(u, x, m) = EvalFrom(u, x, m, 1)
        /\ \A d \in 0..(2 * n) : n >= 2 => MulMono(u, d, m) =
              NegMul(u, LET e == d % (2 * n) IN
                        [i \in 1..n |-> IF i - 1 = e % n THEN (IF e < n THEN 1 % m ELSE m - 1) ELSE 0], m)
NttOk ==
    /\ \A u \in Polys(4, 97) : Ntt(u, 33, 2, 97) = NttP(u, 33, 2, 97)
    /\ \A u, v \in Polys(8, 97) : PowMod(8, 8, 97) = 96 =>
          Ntt(NegMul(u, v, 97), 8, 3, 97) = VHad(Ntt(u, 8, 3, 97), Ntt(v, 8, 3, 97), 97)
Bigs == {<< >>, <<1>>, <<32767>>, <<0, 1>>, <<5, 0, 9>>, <<32767, 32767>>, <<1, 2, 3, 4, 5>>,
         <<32767, 32767, 32767, 32767, 15>>, <<17, 0, 0, 0, 8>>, <<12345, 31000, 7, 29999, 14, 3, 3, 30000, 1>>}
BigOk(x) ==
    /\ \A y \in Bigs :
        /\ BAdd(x, y) = BAddP(x, y)
        /\ BLe(y, x) => BSub(x, y) = BSubP(x, y)
        /\ BMul(x, y) = BMulP(x, y)
        /\ y # << >> => BMod(x, y) = BModP(x, y)
        /\ y # << >> => BDiv(x, y) = BDivP(x, y) /\ BAdd(BMul(BDiv(x, y), y), BMod(x, y)) = x
        /\ Len(x) <= 2 => BFromInt(BToInt(x)) = x
        /\ IsBig(BMul(x, y))
    /\ \A y, z \in {<<5>>, <<32767, 3>>} : LET u == <<x, y, x>> v == <<z, x, y>> IN
        /\ BDot(u, v) = BDotFrom(u, v, 3)
        /\ \A w \in {8, 64} : BDigits(u, w) = BDigitsFrom(u, w, 1)
    /\ \A m \in {<<3>>, <<17, 1>>, <<1, 2, 3>>} : BPowMod(x, <<11, 2>>, m) = BPowModP(x, <<11, 2>>, m)
Init == k = 1
Next == k < Len(M) + 2 /\ k' = k + 1
Inv == IF k <= Len(M) THEN SmallOk(M[k]) ELSE IF k = Len(M) + 1 THEN NttOk ELSE \A x \in Bigs : BigOk(x)
=============================================================================
