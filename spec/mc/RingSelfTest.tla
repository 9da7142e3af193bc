---------------------------- MODULE RingSelfTest ----------------------------
(* The Java forms of Ring.tla's operators equal their TLA+ definitions. *)
EXTENDS Ring, Integers, Sequences, TLC
VARIABLE t
Big == <<4097, 32766, 32767, 8191>>        \* some 58-bit modulus
Ms  == {<<17>>, <<12289>>, <<1, 0, 1>>, Big}
Rnd(i, j, m) == BMod(BMul(<<i * 7 + 3, j * 11 + 5, (i * j * 131) % 32768, 77>>, <<(i * 977 + 13) % 32768, 31, j>>), m)
Pol(i, n, m) == [j \in 1..n |-> IF (i + j) % 5 = 0 THEN BSub(m, <<1>>) ELSE Rnd(i, j, m)]
Init == t \in Ms \X {0, 1, 2, 3}
(* points that repeat: roots of order 2n *)
Fast == \A r \in {<< <<17>>, <<3>>, 3 >>, << <<97>>, <<28>>, 4 >>, << <<193>>, <<125>>, 5 >>, << <<12289>>, BPowMod(<<11>>, <<192>>, <<12289>>), 5 >>} :
          LET m == r[1] s == r[2] k == r[3] u == Pol(k, Pow2(k), m) IN
          /\ BPowMod(s, BFromInt(Pow2(k)), m) = BSub(m, <<1>>)
          /\ PNtt(u, s, k, m) = PNttP(u, s, k, m)
Next == FALSE /\ t' = t
Ok == Fast /\ LET m == t[1]
          k == t[2]
          n == Pow2(k)
          u == Pol(1, n, m)
          v == Pol(2, n, m)
          s == Rnd(9, 4, m)
          lz == [j \in 1..n |-> BAdd(u[j], m)]
      IN  /\ PAdd(u, v, m) = PAddP(u, v, m) /\ PSub(u, v, m) = PSubP(u, v, m) /\ PHad(u, v, m) = PHadP(u, v, m)
          /\ PScale(u, s, m) = PScaleP(u, s, m) /\ PNorm(lz, m) = PNormP(lz, m) /\ PNorm(lz, m) = u
          /\ PMul(u, v, m) = PMulP(u, v, m) /\ PEval(u, s, m) = PEvalP(u, s, m)
          /\ PNtt(u, s, k, m) = PNttP(u, s, k, m) /\ PPowers(s, n, m) = PPowersP(s, n, m)
          /\ PCanon(u, n, m) = PCanonP(u, n, m) /\ PCanon(lz, n, m) = PCanonP(lz, n, m)
          /\ PCanon(u, n + 1, m) = PCanonP(u, n + 1, m) /\ PCanon(u, n, m)
=============================================================================
