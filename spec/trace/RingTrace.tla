------------------------------ MODULE RingTrace ------------------------------
(* Recorded polynomial arithmetic: single operations in all their forms, register programs        *)
(* (GenRing), and the transforms with their tables.  Session: m modulus, n = 2^k, root.           *)
EXTENDS TraceKit, Ring, NumTheory
VARIABLES p, t, lz          \* registers of a program: polynomials, point values, lazily reduced ones
vars == <<b, l, p, t, lz>>
M == Head0.m
N == Head0.n
K == Head0.k
W == Head0.root
Ntt_(u) == PNtt(u, W, K, M)
One == <<1>>
C(u) == PCanon(u, N, M)
Empty == [i \in 0..2 |-> << >>]
Init == /\ TkInit /\ lz = {}
        /\ p = (IF "p" \in DOMAIN Head0 THEN [i \in 0..2 |-> Head0.p[i + 1]] ELSE Empty)
        /\ t = (IF "t" \in DOMAIN Head0 THEN [i \in 0..2 |-> Head0.t[i + 1]] ELSE Empty)
Same == UNCHANGED <<p, t, lz>>
All(x) == Len(E.outs) > 0 /\ \A i \in 1..Len(E.outs) : E.outs[i] = x
Sl(u, cnt, m) == Len(u) = cnt /\ \A i \in 1..cnt : BLt(u[i], BAdd(m, m))

(* ------------------------------------------------- single operations, all forms *)
Good ==
    LET f == E.f
        x == E.a
        y == E.b
        z == E.c
    IN CASE f = "add" -> All(PAdd(x, y, M))
         [] f = "sub" -> All(PSub(x, y, M))
         [] f = "neg" -> All(PNeg(x, M))
         [] f = "scale" -> All(PScale(x, z[1], M))
         [] f = "mul" -> All(PMul(x, y, M))
         [] f = "had" -> All(PHad(x, y, M))
         [] f = "fma" -> All(PAdd(z, PHad(x, y, M), M))
         [] f = "fmalazy" -> \A r \in {PAdd(z, PHad(x, y, M), M)} :
                 \A i \in 1..Len(E.outs) : Sl(E.outs[i], N, M) /\ PNorm(E.outs[i], M) = r
         [] f = "ntt" -> All(Ntt_(x))
         [] f = "intt" -> \A i \in 1..Len(E.outs) : C(E.outs[i]) /\ Ntt_(E.outs[i]) = x
         [] f = "pxt" -> \A r \in {PHad(Ntt_(x), y, M)} : All(E.outs[1]) /\ C(E.outs[1]) /\ Ntt_(E.outs[1]) = r
         [] f = "txp" -> All(PHad(x, Ntt_(y), M))
         [] f = "inv" -> All(E.outs[1]) /\ C(E.outs[1]) /\ PMul(x, E.outs[1], M) = POne(N)
         [] f = "tinv" -> All(E.outs[1]) /\ C(E.outs[1]) /\ PHad(x, E.outs[1], M) = POnes(N)
         [] f = "eval" -> All(<<PEval(x, z[1], M)>>)
         [] f = "zero" -> All(PZero(N))
         [] f = "id" -> All(x)
         [] f = "resize" -> All([i \in 1..E.len |-> IF i <= Len(x) THEN x[i] ELSE z[1]])
         [] f = "set" -> All([x EXCEPT ![E.len + 1] = z[1]])
         [] OTHER -> FALSE
Call == Eat("call") /\ Good /\ Same
Flag == Eat("iszero") /\ E.z = (\A i \in 1..Len(E.a) : E.a[i] = << >>) /\ E.len = Len(E.a) /\ Same

(* ------------------------------------------------- register programs *)
Reg(o, d, a, bb) ==
    LET P1 == p[a]
        P2 == p[bb]
        T1 == t[a]
        T2 == t[bb]
    IN CASE o = "padd" -> p' = [p EXCEPT ![d] = PAdd(P1, P2, M)] /\ t' = t /\ lz' = lz
         [] o = "psub" -> p' = [p EXCEPT ![d] = PSub(P1, P2, M)] /\ t' = t /\ lz' = lz
         [] o = "pmul" -> p' = [p EXCEPT ![d] = PMul(P1, P2, M)] /\ t' = t /\ lz' = lz
         [] o = "pneg" -> p' = [p EXCEPT ![d] = PNeg(P1, M)] /\ t' = t /\ lz' = lz
         [] o = "pscale" -> p' = [p EXCEPT ![d] = PScale(P1, E.s, M)] /\ t' = t /\ lz' = lz
         [] o = "pcopy" -> p' = [p EXCEPT ![d] = P1] /\ t' = t /\ lz' = lz
         [] o = "pzero" -> p' = [p EXCEPT ![d] = PZero(N)] /\ t' = t /\ lz' = lz
         [] o = "presize" -> p' = [p EXCEPT ![d] = [i \in 1..N |-> IF i <= E.at THEN P1[i] ELSE E.s]] /\ t' = t /\ lz' = lz
         [] o = "tadd" -> t' = [t EXCEPT ![d] = PAdd(T1, T2, M)] /\ p' = p /\ lz' = lz \ {d}
         [] o = "tsub" -> t' = [t EXCEPT ![d] = PSub(T1, T2, M)] /\ p' = p /\ lz' = lz \ {d}
         [] o = "tmul" -> t' = [t EXCEPT ![d] = PHad(T1, T2, M)] /\ p' = p /\ lz' = lz \ {d}
         [] o = "tneg" -> t' = [t EXCEPT ![d] = PNeg(T1, M)] /\ p' = p /\ lz' = lz \ {d}
         [] o = "tscale" -> t' = [t EXCEPT ![d] = PScale(T1, E.s, M)] /\ p' = p /\ lz' = lz \ {d}
         [] o = "tcopy" -> t' = [t EXCEPT ![d] = T1] /\ p' = p /\ lz' = lz \ {d}
         [] o = "tzero" -> t' = [t EXCEPT ![d] = PZero(N)] /\ p' = p /\ lz' = lz \ {d}
         [] o = "tfma" -> t' = [t EXCEPT ![d] = PAdd(t[d], PHad(T1, T2, M), M)] /\ p' = p /\ lz' = lz
         [] o = "tfmai" -> t' = [t EXCEPT ![d] = PAdd(T1, PHad(T2, T1, M), M)] /\ p' = p /\ lz' = lz \ {d}
         [] o = "tfmaf" -> t' = [t EXCEPT ![d] = PAdd(t[d], PHad(T1, T2, M), M)] /\ p' = p /\ lz' = lz \cup {d}
         [] o = "ptot" -> t' = [t EXCEPT ![d] = Ntt_(P1)] /\ p' = p /\ lz' = lz \ {d}
         [] o = "tmulP" -> t' = [t EXCEPT ![d] = PHad(T1, Ntt_(P2), M)] /\ p' = p /\ lz' = lz \ {d}
         [] o = "ttop" -> p' = [p EXCEPT ![d] = E.p[d + 1]] /\ Ntt_(p'[d]) = T1 /\ t' = t /\ lz' = lz
         [] o = "pmulT" -> p' = [p EXCEPT ![d] = E.p[d + 1]] /\ Ntt_(p'[d]) = PHad(Ntt_(P1), T2, M) /\ t' = t /\ lz' = lz
Step == /\ Eat("step")
        /\ Reg(E.f, E.d, E.a, E.b)
        /\ \A i \in 0..2 : /\ C(E.p[i + 1]) /\ E.p[i + 1] = p'[i]
                           /\ IF i \in lz' THEN Sl(E.t[i + 1], N, M) /\ PNorm(E.t[i + 1], M) = t'[i]
                              ELSE E.t[i + 1] = t'[i]

(* ------------------------------------------------- transforms and their tables *)
Table == /\ Eat("table") /\ Same
         /\ N = Pow2(K) /\ E.logn = K /\ E.count = N
         /\ BPowMod(W, BFromInt(N), M) = BSub(M, One)
         /\ E.root = W /\ E.troot = W
         /\ BMulMod(W, E.inv, M) = One /\ BMulMod(BFromInt(N), E.ninv, M) = One /\ BLt(E.inv, M) /\ BLt(E.ninv, M)
         /\ MinRoot(W, N, M) = W
         /\ \A o \in {PPowers(W, 2 * N, M)} :
               /\ E.ord = o
               /\ Len(E.rp) = N /\ \A i \in 1..N : E.rp[i] = o[BitRev(i - 1, K) + 1]
               /\ Len(E.irp) = N /\ \A i \in 2..N : E.irp[i] = o[(2 * N) - BitRev(i - 2, K)]
Fwd  == Eat("fwd") /\ Same /\ PBelow(E.a, 4, M) /\ All(Ntt_(PNorm(E.a, M)))
Inv_ == Eat("inv") /\ Same /\ PBelow(E.a, 2, M)
        /\ \A r \in {PNorm(E.a, M)} : All(E.outs[1]) /\ C(E.outs[1]) /\ Ntt_(E.outs[1]) = r
(* values of c*X^d: c times the powers of the root at (2i+1)d *)
MonoVal(c, d) ==
    \A o \in {PPowers(W, 2 * N, M)} :
        \A i \in 1..N : \A x \in {BMulMod(c, o[((((2 * BitRev(i - 1, K)) + 1) * d) % (2 * N)) + 1], M)} :
            \A j \in 1..Len(E.outs) : Len(E.outs[j]) = N /\ E.outs[j][i] = x
Mono == Eat("mono") /\ Same /\ Len(E.outs) > 0 /\ E.d < 2 * N /\ MonoVal(E.c, E.d)
(* large tables and transforms, in sampled places: a polynomial of few terms, point values of few *)
(* points, what a round trip changes (counted by the recorder) *)
Root(e) == BPowMod(W, e, M)                                  \* e big
TwoN == BFromInt(2 * N)
OddAt(i, d) == BMod(BMul(BFromInt((2 * BitRev(i, K)) + 1), BFromInt(d)), TwoN)
RECURSIVE SumF(_, _, _), SumI(_, _, _)
SumF(ts, i, j) == IF j = 0 THEN << >>
                  ELSE BAddMod(BMulMod(ts[j][2], Root(OddAt(i, ts[j][1])), M), SumF(ts, i, j - 1), M)
SumI(ts, d, j) == IF j = 0 THEN << >>
                  ELSE BAddMod(BMulMod(ts[j][2], Root(BMod(BSub(TwoN, OddAt(ts[j][1], d)), TwoN)), M), SumI(ts, d, j - 1), M)
TableAt == /\ Eat("tableat") /\ Same
           /\ N = Pow2(K) /\ E.logn = K /\ E.count = N /\ E.lens = <<2 * N, N, N>>
           /\ Root(BFromInt(N)) = BSub(M, One) /\ MinRoot(W, N, M) = W
           /\ E.root = W /\ E.troot = W
           /\ BMulMod(W, E.inv, M) = One /\ BMulMod(BFromInt(N), E.ninv, M) = One /\ BLt(E.inv, M) /\ BLt(E.ninv, M)
           /\ \A x \in {E.at[i] : i \in 1..Len(E.at)} :
                CASE x[1] = "ord" -> x[3] = Root(BFromInt(x[2]))
                  [] x[1] = "rp" -> x[3] = Root(BFromInt(BitRev(x[2], K)))
                  [] x[1] = "irp" -> x[3] = Root(BFromInt(((2 * N) - 1) - BitRev(x[2] - 1, K)))
SpotF == /\ Eat("spotf") /\ Same /\ Len(E.at) > 0 /\ E.high = 0
         /\ \A k \in 1..Len(E.at) : E.at[k][2] = SumF(E.terms, E.at[k][1], Len(E.terms))
SpotI == /\ Eat("spoti") /\ Same /\ Len(E.at) > 0 /\ E.high = 0
         /\ \A k \in 1..Len(E.at) : BMulMod(BFromInt(N), E.at[k][2], M) = SumI(E.terms, E.at[k][1], Len(E.terms))
Round == Eat("round") /\ Same /\ E.count = N /\ E.diff = 0 /\ E.high = 0
Evals == /\ Eat("evals") /\ Same /\ Len(E.at) > 0 /\ E.high = 0 /\ Len(E.x) = N
         /\ \A x \in {PNorm(E.x, M)} : \A k \in 1..Len(E.at) :
              E.at[k][2] = PEval(x, Root(BFromInt((2 * BitRev(E.at[k][1], K)) + 1)), M)
Next == Evals \/ TableAt \/ SpotF \/ SpotI \/ Round \/ Call \/ Flag \/ Step \/ Table \/ Fwd \/ Inv_ \/ Mono \/ (AtEnd /\ Same)
=============================================================================
