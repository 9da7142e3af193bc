------------------------------ MODULE NumTrace ------------------------------
(* Recorded number-theoretic calls. *)
EXTENDS TraceKit, NumTheory, Arith
Init == TkInit

Gcd == /\ Eat("gcd")
       /\ E.g = BGcd(E.a, E.b)
       /\ E.co = BLe(E.g, B1) /\ E.nco = BLt(B1, E.g)
Egcd == /\ Eat("egcd")
        /\ E.g = BGcd(E.a, E.b)
        /\ Bezout(E.a, E.b, E.p, E.q, E.g)
(* an inverse, or an error naming the value and the modulus *)
TryInv == /\ Eat("tryinv")
          /\ E.ok = (BGcd(E.m, E.v) = B1)
          /\ E.ok => (BLt(E.i, E.m) /\ BMod(BMul(E.i, E.v), E.m) = BMod(B1, E.m))
          /\ ~E.ok => (Len(E.names) > 0 /\ E.names[Len(E.names)] = E.m)
(* whole ranges *)
Primes == Eat("primes") /\ \A i \in 1..Len(E.out) : E.out[i] = IsPrimeFast(E.from + i - 1)
Refused == Eat("refused") /\ E.ns = << >>
(* rounds >= 20: a wrong answer on a composite has probability below 2^-40 *)
IsPrime == Eat("isprime") /\ E.out = BIsPrime(E.n)
Always == Eat("always") /\ BIsPrime(E.n) /\ E.refused = 0
(* composites: acceptance frequency at most 4^-rounds, plus eight standard deviations *)
Accept == LET q == Pow2(2 * E.rounds)                      \* 4^rounds
              e == q * E.accepted - E.calls IN
          /\ Eat("accept")
          /\ ~BIsPrime(E.n)
          /\ e <= 0 \/ e * e <= 64 * (q - 1) * E.calls
Root == /\ Eat("root")
        /\ E.ok = RootExists(E.d, Head0.m)
        /\ E.ok => (HasOrder(E.r, E.d, Head0.m) /\ (E.min => IsMinimalRoot(E.r, E.half, Head0.m)))
        /\ ~E.ok => E.names = <<E.d, Head0.m>>
IsRoot == Eat("isroot") /\ \A i \in 1..Len(E.xs) : E.out[i] = HasOrder(E.xs[i], E.d, Head0.m)
Conv == /\ Eat("conv")
        /\ \A i \in 1..Len(E.rows) : LET t == E.rows[i]  p == BMod(BMul(t[1], t[2]), Head0.m) IN
              t[3] = t[1] /\ t[4] = p /\ t[5] = p /\ t[7] = BMod(t[6], Head0.m)
Rev == Eat("rev") /\ Reversed(E.x, E.bits, E.y)
Next == Gcd \/ Egcd \/ TryInv \/ Primes \/ Refused \/ IsPrime \/ Always \/ Accept \/ Root \/ IsRoot \/ Conv \/ Rev \/ AtEnd
=============================================================================
