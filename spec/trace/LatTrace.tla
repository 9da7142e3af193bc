------------------------------ MODULE LatTrace ------------------------------
(* Recorded operations on LWE, RLWE, gadget and RGSW ciphertexts and gadget decomposition.        *)
EXTENDS TraceKit, Lattice, Modulus
VARIABLES r, t, lz           \* registers of a program; which transformed ones are lazily reduced
M == Head0.m
N == Head0.n
K == Head0.k
W == Head0.root
S == Head0.s
H(f) == f \in DOMAIN Head0
Init == /\ TkInit /\ lz = {}
        /\ r = (IF H("r") THEN [i \in 0..(Len(Head0.r) - 1) |-> Head0.r[i + 1]] ELSE << >>)
        /\ t = (IF H("t") THEN [i \in 0..(Len(Head0.t) - 1) |-> Head0.t[i + 1]] ELSE << >>)
Same == UNCHANGED <<r, t, lz>>
All(x) == Len(E.outs) > 0 /\ \A i \in 1..Len(E.outs) : E.outs[i] = x
Canon(u) == PCanon(u, Len(u), M)
N_(u) == PNtt(u, W, K, M)
RN(x) == <<N_(x[1]), N_(x[2])>>
RCanon(x) == Len(x) = 2 /\ PCanon(x[1], N, M) /\ PCanon(x[2], N, M)
RLazy(x, y) == Len(x) = 2 /\ \A c \in 1..2 : /\ Len(x[c]) = N /\ PBelow(x[c], 2, M) /\ PNorm(x[c], M) = y[c]

(* ------------------------------------------------------------------ LWE *)
LweF(f, x, y, k) ==
    CASE f = "add" -> PAdd(x, y, M)
      [] f = "sub" -> PSub(x, y, M)
      [] f = "neg" -> PNeg(x, M)
      [] f = "scale" -> PScale(x, k, M)
      [] f = "fma" -> PAdd(x, PScale(y, k, M), M)
      [] f = "copy" -> x
LCall == Eat("lcall") /\ Same /\ \A v \in {LweF(E.f, E.x, E.y, E.k)} : All(v)
LPhase(x) == LwePhase(x, S, M)
LStep == /\ Eat("lstep") /\ UNCHANGED <<t, lz>>
         /\ r' = [r EXCEPT ![E.d] = IF E.f = "fma" THEN LweF("fma", r[E.d], r[E.b], E.k) ELSE LweF(E.f, r[E.a], r[E.b], E.k)]
         /\ \A i \in DOMAIN r : E.r[i + 1] = r'[i]
(* fresh samples of zero: canonical, their phase is the error, masks cover the residues *)
LZero == /\ Eat("lzero") /\ Same
         /\ \A i \in 1..Len(E.outs) :
              /\ Len(E.outs[i]) = Len(S) + 1 /\ Canon(E.outs[i])
              /\ Near(LPhase(E.outs[i]), E.mean, E.bound, M)
         /\ \A i, j \in 1..Len(E.outs) : i # j => Front_(E.outs[i]) # Front_(E.outs[j])
         /\ \E i \in 1..Len(E.outs) : \E j \in 1..Len(S) : BLe(M, BAdd(E.outs[i][j], E.outs[i][j]))
         /\ \E i \in 1..Len(E.outs) : \E j \in 1..Len(S) : BLt(BAdd(E.outs[i][j], E.outs[i][j]), M)

(* ------------------------------------------------------------------ RLWE *)
RF(f, x, y, p, d) ==
    CASE f = "add" -> RAdd(x, y, M)
      [] f = "sub" -> RSub(x, y, M)
      [] f = "shiftsub" -> RSub(RShift(x, d, M), x, M)
      [] f = "shiftadd" -> RAdd(x, RShift(y, d, M), M)
      [] f = "tmulp" -> RHad(RN(x), p, M)              \* to point values, times point values
      [] f = "tadd" -> RAdd(x, y, M)
      [] f = "tsub" -> RSub(x, y, M)
      [] f = "tmul" -> RHad(x, p, M)
      [] f = "tfma" -> RAdd(x, RHad(y, p, M), M)
      [] f = "ton" -> RN(x)
      [] f = "id" -> x
      [] f = "zero" -> <<PZero(N), PZero(N)>>
      [] f = "extract" -> Extract(x, d, M)
      [] f = "extractrev" -> ExtractRev(x, d)
RCall == Eat("rcall") /\ Same /\ \A v \in {RF(E.f, E.x, E.y, E.p, E.d)} : All(v)
(* the extracted ciphertext's phase is the constant coefficient of the phase polynomial *)
RExt == /\ Eat("rext") /\ Same
        /\ \A c \in {RPhase(E.x, S, M)[1]} : \A i \in 1..Len(E.outs) : LPhase(E.outs[i]) = c
        /\ \A c \in {RPhase(E.x, S, M)[1]} : \A i \in 1..Len(E.revs) : LwePhase(E.revs[i], RevKey(S, M), M) = c
        /\ \A k \in {[i \in 1..N |-> IF i <= E.d THEN S[i] ELSE << >>]} :
           \A c \in {RPhase(E.x, k, M)[1]} : \A i \in 1..Len(E.parts) : Len(E.parts[i]) = E.d + 1 /\ LwePhase(E.parts[i], k, M) = c
        /\ \A k \in {[i \in 1..N |-> IF i <= E.d THEN RevKey(S, M)[i] ELSE << >>]} :
           \A i \in 1..Len(E.rparts) : Len(E.rparts[i]) = E.d + 1
              /\ LwePhase(E.rparts[i], k, M) = BSubMod(E.x[2][1], BDotMod(SubSeq(E.x[1], 1, E.d), k, M), M)
RLz == Eat("rlazy") /\ Same /\ \A v \in {RAdd(E.x, RHad(E.y, E.p, M), M)} : \A i \in 1..Len(E.outs) : RLazy(E.outs[i], v)
RInv == Eat("rinv") /\ Same /\ All(E.outs[1]) /\ RCanon(E.outs[1]) /\ RN(E.outs[1]) = <<PNorm(E.x[1], M), PNorm(E.x[2], M)>>
(* fresh RLWE samples *)
RZero == /\ Eat("rzero") /\ Same
         /\ \A i \in 1..Len(E.outs) : RCanon(E.outs[i])
         /\ \A i \in 1..Len(E.outs) : PNear(RPhase(E.outs[i], S, M), E.msg, E.bound, M)
         /\ \A i, j \in 1..Len(E.outs) : i # j => E.outs[i][1] # E.outs[j][1]
RStepF(o, d, a, bb, p, e) ==
    CASE o \in {"add", "sub"} -> r' = [r EXCEPT ![d] = RF(o, r[a], r[bb], p, e)] /\ t' = t /\ lz' = lz
      [] o = "shiftsub" -> r' = [r EXCEPT ![d] = RF(o, r[a], r[a], p, e)] /\ t' = t /\ lz' = lz
      [] o = "shiftadd" -> r' = [r EXCEPT ![d] = RF(o, r[d], r[a], p, e)] /\ t' = t /\ lz' = lz
      [] o = "zero" -> r' = [r EXCEPT ![d] = RF(o, r[a], r[a], p, e)] /\ t' = t /\ lz' = lz
      [] o = "tmulp" -> t' = [t EXCEPT ![d] = RF(o, r[a], r[a], p, e)] /\ r' = r /\ lz' = lz \ {d}
      [] o = "ton" -> t' = [t EXCEPT ![d] = RN(r[a])] /\ r' = r /\ lz' = lz \ {d}
      [] o \in {"tadd", "tsub"} -> t' = [t EXCEPT ![d] = RF(o, t[a], t[bb], p, e)] /\ r' = r /\ lz' = lz \ {d}
      [] o = "tmul" -> t' = [t EXCEPT ![d] = RF(o, t[a], t[a], p, e)] /\ r' = r /\ lz' = lz \ {d}
      [] o = "tfma" -> t' = [t EXCEPT ![d] = RF(o, t[d], t[a], p, e)] /\ r' = r /\ lz' = lz
      [] o = "tfmai" -> t' = [t EXCEPT ![d] = RF("tfma", t[a], t[bb], p, e)] /\ r' = r /\ lz' = lz \ {d}
      [] o = "tfmaf" -> t' = [t EXCEPT ![d] = RF("tfma", t[d], t[a], p, e)] /\ r' = r /\ lz' = lz \cup {d}
      [] o = "tzero" -> t' = [t EXCEPT ![d] = <<PZero(N), PZero(N)>>] /\ r' = r /\ lz' = lz \ {d}
      [] o = "ntor" -> r' = [r EXCEPT ![d] = E.r[d + 1]] /\ RCanon(r'[d]) /\ RN(r'[d]) = t[a] /\ t' = t /\ lz' = lz
RStep == /\ Eat("rstep") /\ RStepF(E.f, E.d, E.a, E.b, E.p, E.e)
         /\ \A i \in DOMAIN r : RCanon(E.r[i + 1]) /\ E.r[i + 1] = r'[i]
         /\ \A i \in DOMAIN t : IF i \in lz' THEN RLazy(E.t[i + 1], t'[i]) ELSE E.t[i + 1] = t'[i]

(* ------------------------------------------------------------------ decomposition *)
Basis == /\ Eat("basis") /\ Same
         /\ E.bits = Head0.bits
         /\ E.len = CeilDiv(MBits(M), E.bits) /\ BLe(M, BPow2(E.len * E.bits))
         /\ E.basis = BPow2(E.bits) /\ BAdd(E.mask, <<1>>) = E.basis
         /\ E.len = Head0.len
Digits(d, x) == Len(d) = Head0.len /\ (\A i \in 1..Len(d) : IsBig(d[i]) /\ BLt(d[i], BPow2(Head0.bits))) /\ BDigits(d, Head0.bits) = x
Dec == Eat("dec") /\ Same /\ BLt(E.x, M) /\ Len(E.outs) > 0 /\ \A i \in 1..Len(E.outs) : Digits(E.outs[i], E.x)
(* vectors: digit vector i holds digit i of every entry; rest is what remains of the source *)
VDec == /\ Eat("vdec") /\ Same /\ Len(E.outs) > 0
        /\ \A o \in 1..Len(E.outs) :
             /\ Len(E.outs[o]) = Head0.len
             /\ \A i \in 1..Head0.len : Len(E.outs[o][i]) = Len(E.x)
             /\ \A j \in 1..Len(E.x) : Digits([i \in 1..Head0.len |-> E.outs[o][i][j]], E.x[j])
        /\ \A o \in 1..Len(E.rest) : E.rest[o] = PZero(Len(E.x))

(* ------------------------------------------------------------------ gadget and RGSW products *)
B_ == Head0.bits
Gad == Eat("gad") /\ Same /\ Len(E.g) = Head0.len
       /\ \A i \in 1..Len(E.g) : RCanon(E.g[i]) /\ PNear(RPhase(E.g[i], S, M), PScale(E.msg, BPow2(B_ * (i - 1)), M), E.bound, M)
RowsNear(g, msg, bd) == Len(g) = Head0.len /\
    \A i \in 1..Len(g) : RCanon(g[i]) /\ PNear(RPhase(g[i], S, M), PScale(msg, BPow2(B_ * (i - 1)), M), bd, M)
Rgsw == Eat("rgsw") /\ Same /\ RowsNear(E.g[2], E.msg, E.bound)
        /\ \A w \in {PNeg(PMul(S, E.msg, M), M)} : RowsNear(E.g[1], w, E.bound)
(* outs are RLWE ciphertexts that must all have the phase w up to the bound; coefficient form in   *)
(* outs, point values in touts, lazily reduced point values in louts, all the same ciphertext      *)
Same3(w) == /\ Len(E.outs) > 0
            /\ RCanon(E.outs[1]) /\ PNear(RPhase(E.outs[1], S, M), w, E.bound, M)
            /\ \A i \in 1..Len(E.outs) : E.outs[i] = E.outs[1]
            /\ \A v \in {RN(E.outs[1])} : /\ \A i \in 1..Len(E.touts) : E.touts[i] = v
                                          /\ \A i \in 1..Len(E.louts) : RLazy(E.louts[i], v)
(* gadget product: phase of x, plus or minus msg * p *)
Prod == /\ Eat("prod") /\ Same
        /\ \A w \in {IF E.neg THEN PSub(RPhase(E.x, S, M), PMul(E.msg, E.p, M), M)
                     ELSE PAdd(RPhase(E.x, S, M), PMul(E.msg, E.p, M), M)} : Same3(w)
(* external product: phase of x times msg *)
Ext == /\ Eat("ext") /\ Same
       /\ \A w \in {PMul(RPhase(E.x, S, M), E.msg, M)} : Same3(w)
(* product of two RGSW encryptions: every row is the external product of a row of the first *)
Mul2 == /\ Eat("rgswmul") /\ Same
        /\ \A o \in 1..Len(E.outs) : E.outs[o] = E.outs[1]
        /\ \A i \in 1..Len(E.bits) : E.bits[i] = B_             \* the rows still stand for the first one's digits
        /\ \A c \in 1..2 : /\ Len(E.outs[1][c]) = Len(E.x[c])
                          /\ \A i \in 1..Len(E.x[c]) :
                               /\ RCanon(E.outs[1][c][i])
                               /\ \A w \in {PMul(RPhase(E.x[c][i], S, M), E.msg, M)} : PNear(RPhase(E.outs[1][c][i], S, M), w, E.bound, M)
(* registers of an RGSW program: r[i] RLWE phases, t[i] RGSW messages *)
GStepF(o, d, a, bb, p) ==
    CASE o = "ext" -> r' = [r EXCEPT ![d] = PMul(r[a], t[bb], M)] /\ t' = t
      [] o = "radd" -> r' = [r EXCEPT ![d] = PAdd(r[a], r[bb], M)] /\ t' = t
      [] o = "cmux" -> r' = [r EXCEPT ![d] = PAdd(r[d], PMul(PSub(r[a], r[d], M), t[bb], M), M)] /\ t' = t
      [] o = "gone" -> t' = [t EXCEPT ![d] = POne(N)] /\ r' = r
      [] o = "gzero" -> t' = [t EXCEPT ![d] = PZero(N)] /\ r' = r
      [] o = "gmulp" -> t' = [t EXCEPT ![d] = PMul(t[d], p, M)] /\ r' = r
      [] o = "gfma" -> t' = [t EXCEPT ![d] = PAdd(t[a], PMul(t[bb], p, M), M)] /\ r' = r
      [] o = "gadd" -> t' = [t EXCEPT ![d] = PAdd(t[a], t[bb], M)] /\ r' = r
      [] o = "gsub" -> t' = [t EXCEPT ![d] = PSub(t[a], t[bb], M)] /\ r' = r
      [] o = "gmul" -> t' = [t EXCEPT ![d] = PMul(t[a], t[bb], M)] /\ r' = r
GStep == /\ Eat("gstep") /\ lz' = lz /\ GStepF(E.f, E.d, E.a, E.b, E.p)
         /\ (IF E.f \in {"ext", "radd", "cmux"} THEN RCanon(E.out) /\ RPhase(E.out, S, M) = r'[E.d]
             ELSE RowsNear(E.out[2], t'[E.d], << >>) /\ \A w \in {PNeg(PMul(S, t'[E.d], M), M)} : RowsNear(E.out[1], w, << >>))
Next == LCall \/ LStep \/ LZero \/ RCall \/ RExt \/ RLz \/ RInv \/ RZero \/ RStep \/ Basis \/ Dec \/ VDec
        \/ Gad \/ Rgsw \/ Prod \/ Ext \/ Mul2 \/ GStep \/ (AtEnd /\ Same)
=============================================================================
