------------------------------ MODULE FheTrace ------------------------------
(* Recorded operations of the encryption scheme. *)
EXTENDS TraceKit, Fhe
VARIABLE st
H(f) == f \in DOMAIN Head0
Init == /\ TkInit
        /\ st = IF H("r") THEN [i \in 0..(Len(Head0.r) - 1) |-> Head0.r[i + 1]]
                ELSE IF H("wires") THEN [i \in 0..(Head0.wires - 1) |-> [v |-> FALSE, p |-> << >>]]
                ELSE << >>
Same == UNCHANGED st
M == Head0.m
All(x) == Len(E.outs) > 0 /\ \A i \in 1..Len(E.outs) : E.outs[i] = x

(* ------------------------------------------------------------ C05 modulus switching *)
Ms == /\ Eat("ms") /\ Same
      /\ IsSwitchVec(E.x, E.outs[1], M, E.after) /\ All(E.outs[1])

(* ------------------------------------------------------------ C06 key switching *)
LN == Head0.ln
N == Head0.n
Q2 == Head0.q
Canon(u, len, m) == PCanon(u, len, m)
(* worst case noise of the switching key *)
TableNoise == BMul(BFromInt(N * GadgetLen(MBits(Q2), Head0.ks)), Head0.ke)
RingNoise == IF Head0.ke = << >> THEN << >> ELSE GadgetNoise(GadgetLen(MBits(M), Head0.ks), Head0.ks, N, Head0.ke)
Kst == /\ Eat("kst") /\ Same /\ Canon(E.outs[1], LN + 1, Q2) /\ All(E.outs[1])
       /\ \A p \in {LwePhase(E.x, Lift(Head0.z, Q2), Q2)} :
            Near(LwePhase(E.outs[1], Lift(Head0.g, Q2), Q2), p, TableNoise, Q2)
KsOk(p) == /\ Canon(E.outs[1], LN + 1, M) /\ All(E.outs[1])
           /\ Near(LwePhase(E.outs[1], Lift(Head0.g, M), M), p, RingNoise, M)
Ksl == Eat("ksl") /\ Same /\ \A p \in {LwePhase(E.x, Head0.s, M)} : KsOk(p)
Ksr == Eat("ksr") /\ Same /\ \A p \in {RPhase(E.x, Head0.s, M)[1]} : KsOk(p)

(* ------------------------------------------------------------ C07 blind rotation *)
RotNoise == IF Head0.re = << >> THEN << >>
            ELSE BMul(BFromInt((IF Head0.ternary THEN 4 ELSE 2) * LN), GadgetNoise(GadgetLen(MBits(M), Head0.br), Head0.br, N, Head0.re))
Two == BFromInt(2 * N)
Br == /\ Eat("br") /\ Same /\ All(E.outs[1])
      /\ Canon(E.outs[1][1], N, M) /\ Canon(E.outs[1][2], N, M)
      /\ \A p \in {BToInt(LwePhase(E.x, Lift(Head0.g, Two), Two))} :
           \A w \in {PShift(E.lut, (2 * N) - p, M)} :
             PNear(RPhase(E.outs[1], Head0.s, M), w, RotNoise, M)

(* ------------------------------------------------------------ C02 bootstrapping *)
QM == BMul(Q2, M)
(* noise of all keys together, in units of 1/(qQ) *)
BootNoise == CASE Head0.steps = "BrMsKs" -> BAdd(BMul(Q2, RotNoise), BMul(M, TableNoise))
               [] Head0.steps = "BrKsMs" -> BMul(Q2, BAdd(RotNoise, RingNoise))
               [] OTHER -> BMul(Q2, RotNoise)
OutKey == IF Head0.steps = "BrMsKs" THEN Head0.z ELSE Head0.g      \* of the last modulus switch
(* the rounding and noise of an output whose exact value is e mod Q; stat: real parameters, a     *)
(* sixteenth of the modulus, which all gates tolerate *)
OutOk(w, e) == IF Head0.stat = 1
               THEN BLe(BMul(<<16>>, Cyc(BMul(w, M), BMul(Q2, e), QM)), QM)
               ELSE NearScaled(w, e, M, Q2, Weight(OutKey), BootNoise)
CtOk(c) == Canon(c, LN + 1, Q2)
QPhase(c) == LwePhase(c, Lift(Head0.g, Q2), Q2)
BootOk(x, lut, out) ==
    /\ CtOk(out)
    /\ \A w \in {QPhase(out)} :
         \E p \in SwitchPhases(x, Head0.g, Q2, 2 * N) :
            OutOk(w, BAddMod(LutAt(lut, p, M), BDiv(M, <<8>>), M))
Boot == Eat("boot") /\ Same /\ BootOk(E.x, E.lut, E.outs[1]) /\ All(E.outs[1])
BStep == /\ Eat("bstep") /\ st' = [st EXCEPT ![E.d] = E.out] /\ CtOk(E.out)
         /\ CASE E.f = "add" -> E.out = PAdd(st[E.a], st[E.b], Q2)
              [] E.f = "sub" -> E.out = PSub(st[E.a], st[E.b], Q2)
              [] E.f = "boot" -> BootOk(st[E.a], E.lut, E.out)
              [] E.f = "new" -> TRUE

(* ------------------------------------------------------------ C01 gates *)
(* st holds, for every wire, the bit the plain circuit computes and the phase *)
Quarter == BDiv(Q2, <<4>>)
Val(v) == IF v THEN Quarter ELSE << >>
GErr(p, v) == Cyc(p, Val(v), Q2)
(* the exact value of a gate's output before rounding is 0 or twice floor(Q/8) *)
Exact(v) == IF v THEN BMul(<<2>>, BDiv(M, <<8>>)) ELSE << >>
(* Operands with errors as large as the tables allow ("given"; Head0.margin = 1).  A table is read   *)
(* right as long as the combination of the phases stays an eighth (xor: after doubling, a quarter) *)
(* around the intended one, less the rounding when switching to 2N.                                 *)
Inside(p, v, mar) ==
    LET d == Cyc(p, v, Q2) IN
    /\ BLt(d, mar)
    /\ \/ BLe(Q2, Two)
       \/ LET x == BMul(Two, BSub(mar, d))
              h == Weight(Head0.g) IN
          \/ BLt(BMul(Q2, BFromInt(h + 1)), BMul(<<2>>, x))
          \/ BLt(BMul(BMul(Q2, Q2), BFromInt(4 * (h + 1))), BMul(x, x))
Eighth == BDiv(Q2, <<8>>)
Count(n) == BMod(BMul(BFromInt(n), Quarter), Q2)
Pair(x, y) == Inside(BAddMod(x.p, y.p, Q2), Count(B2I(x.v) + B2I(y.v)), Eighth)
Flip(x) == [v |-> ~x.v, p |-> BSubMod(Quarter, x.p, Q2)]
Dbl(x) == BAddMod(x, x, Q2)
InMargin(g, x, y, z) ==
    CASE g \in {"nand", "and", "or", "nor"} -> Pair(x, y)
      [] g = "majority" -> Inside(BAddMod(BAddMod(x.p, y.p, Q2), z.p, Q2), Count(B2I(x.v) + B2I(y.v) + B2I(z.v)), Eighth)
      [] g \in {"xor", "xnor"} -> Inside(Dbl(BSubMod(x.p, y.p, Q2)), Count(2 * B2I(x.v # y.v)), Quarter)
      [] g = "mux" -> Pair(x, y) /\ Pair(Flip(x), z)
      [] OTHER -> TRUE
Plain == Eat("plain") /\ Same /\ E.v = GateF(E.g, E.x, E.y, E.z)
Margin == H("margin")
Given == /\ Eat("given") /\ CtOk(E.out) /\ Margin
         /\ \A p \in {QPhase(E.out)} :
              /\ BLt(BMul(<<8>>, GErr(p, E.a = 1)), Q2)
              /\ st' = [st EXCEPT ![E.d] = [v |-> E.a = 1, p |-> p]]
Gate == /\ Eat("gate") /\ CtOk(E.out)
        /\ Margin => InMargin(E.g, st[E.a], st[E.b], st[E.c])    \* what the harness is to feed
        /\ \A p \in {QPhase(E.out)} :
           \A v \in {IF E.g = "fresh" THEN E.a = 1 ELSE GateF(E.g, st[E.a].v, st[E.b].v, st[E.c].v)} :
             /\ CASE E.g = "fresh" -> BLe(GErr(p, v), Head0.le)
                  [] E.g = "not" -> p = BSubMod(Quarter, st[E.a].p, Q2)
                  [] OTHER -> OutOk(p, Exact(v))
             /\ E.dec = B2I(v) /\ E.dec2 = E.dec
             /\ E.noise = GErr(p, v)
             /\ (Margin /\ E.g = "not") \/ BLt(BMul(<<16>>, E.noise), Q2)
             /\ st' = [st EXCEPT ![E.d] = [v |-> v, p |-> p]]

(* ------------------------------------------------------------ C03 encoding, encryption, decryption *)
T == Head0.t
EncTab == /\ Eat("enctab") /\ Same /\ Len(E.xs) = Len(E.outs)
          /\ \A i \in 1..Len(E.xs) :
               IF BLt(E.xs[i], T) THEN E.outs[i] = <<1, Enc(E.xs[i], T, Q2)>> ELSE E.outs[i][1] = 0
(* a decoded value is the message of a nearest encoding; refused only when that does not fit *)
DecOk(c, o, top) == IF o[1] = 1 THEN IsDecode(c, o[2], T, Q2) /\ BLe(o[2], top)
                    ELSE ~BLe(Decode(c, T, Q2), top)
DecTab == /\ Eat("dectab") /\ Same /\ Len(E.xs) = Len(E.outs)
          /\ \A i \in 1..Len(E.xs) : DecOk(E.xs[i], E.outs[i], Head0.top)
(* decryptions of one ciphertext by every copy of the key, with the noise *)
DecsOk(p) == /\ \A i \in 1..Len(E.decs) : E.decs[i] = E.decs[1]
             /\ DecOk(p, E.decs[1], E.top)
             /\ \A i \in 1..Len(E.noises) :
                  E.noises[i] = IF E.decs[1][1] = 1 THEN <<1, Cyc(p, Enc(E.decs[1][2], T, Q2), Q2)>> ELSE E.decs[1]
Fresh == /\ Eat("fresh") /\ Same
         /\ IF ~BLt(E.msg, T) THEN E.refused = 1
            ELSE /\ E.refused = 0 /\ CtOk(E.x)
                 /\ \A p \in {QPhase(E.x)} :
                      /\ BLe(Cyc(p, Enc(E.msg, T, Q2), Q2), Head0.le)
                      /\ E.decs[1] = <<1, E.msg>> /\ DecsOk(p)
Pert == /\ Eat("pert") /\ Same /\ CtOk(E.x) /\ \A p \in {QPhase(E.x)} : DecsOk(p)
(* many encryptions of zero: bounded errors whose mean square is the configured variance, give or *)
(* take half of it; sig: a hundred times the variance *)
SqErr(x) == \* (4 err)^2, in 16ths
    LET d == BToInt(Cyc(QPhase(x), << >>, Q2)) IN d * d
RECURSIVE SumSq(_, _)
SumSq(xs, i) == IF i = 0 THEN 0 ELSE SumSq(xs, i - 1) + SqErr(xs[i])
SmallSig == Head0.sig < 1000000
Many == /\ Eat("many") /\ Same
        /\ \A i \in 1..Len(E.xs) : CtOk(E.xs[i]) /\ BLe(Cyc(QPhase(E.xs[i]), << >>, Q2), Head0.le)
        /\ SmallSig => \A v \in {(100 * SumSq(E.xs, Len(E.xs))) \div Len(E.xs)} :
             v > Head0.sig \div 2 /\ v < 2 * Head0.sig

(* ------------------------------------------------------------ C19 parameters and keys *)
Accepted == /\ Eat("params") /\ Same
            /\ (E.accepted = 1) = ParamsOk(E.n, E.m, E.t, E.q)
            /\ E.accepted = 1 =>
                 /\ E.got = E.given
                 /\ E.basis = <<E.br, GadgetLen(MBits(E.m), E.br), BPow2(E.br), BSub(BPow2(E.br), <<1>>)>>
Within(v, lo, hi) == \A i \in 1..Len(v) : v[i] >= lo /\ v[i] <= hi
(* the plain and transformed forms of the ring key, and the LWE key where there is only one *)
Keys == /\ Eat("keys") /\ Same
        /\ Len(E.g) = LN /\ Len(E.z) = N
        /\ Within(E.g, IF E.lk = "Binary" THEN 0 ELSE 0 - 1, 1)
        /\ CASE Head0.steps = "BrMs" -> E.z = E.g
             [] E.rk = "Gaussian" -> \A i \in 1..N : BLt(E.s[i], M) /\ BLe(Cyc(E.s[i], << >>, M), Head0.re)
             [] OTHER -> Within(E.z, IF E.rk = "Binary" THEN 0 ELSE 0 - 1, 1)
        /\ E.rk # "Gaussian" => E.s = Lift(E.z, M)
        /\ E.native = E.s /\ E.ntt = E.again
        /\ E.copies = <<E.g, E.s, E.ntt>>
        /\ E.got = E.given
        /\ st' = st
(* how often each value occurs among all coefficients of the session's keys *)
Freq == /\ Eat("freq") /\ Same
        /\ \A i \in 1..Len(E.counts) :
             LET c == E.counts[i] IN   \* <<kind, zeros, ones, minus ones>>
             LET t == (c[2] + c[3]) + c[4] IN
             /\ t >= 1000
             /\ IF c[1] = "Binary" THEN Around(2 * c[3], t, t) /\ c[4] = 0
                ELSE Around(2 * c[2], t, t) /\ Around(4 * c[3], t, 3 * t) /\ Around(4 * c[4], t, 3 * t)
Next == EncTab \/ DecTab \/ Fresh \/ Pert \/ Many \/ Accepted \/ Keys \/ Freq \/ Ms \/ Kst \/ Ksl \/ Ksr \/ Br \/ Boot \/ BStep \/ Gate \/ Given \/ Plain \/ (AtEnd /\ Same)
=============================================================================
