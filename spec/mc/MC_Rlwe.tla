------------------------------- MODULE MC_Rlwe -------------------------------
(* Register machine over RLWE ciphertexts in Z_P[X]/(X^N+1), coefficient and point-value form.    *)
(* ph is the phase polynomial each register is meant to have.  Checked for every ciphertext and   *)
(* every key of the declared sets, every plain factor and every rotation 0..2N: the phase of a    *)
(* register is the combination of the phases that went in, in either form, and extraction of the  *)
(* constant coefficient preserves it under the full key, the reordered key and any key prefix.    *)
EXTENDS Lattice, Integers, Sequences, TLC
CONSTANTS PV, LogN, RootV, Steps, Keys, E0, E1
VARIABLES s, r, ph, k
vars == <<s, r, ph, k>>
P == BFromInt(PV)
N == Pow2(LogN)
El(x) == BFromInt(x % PV)
Poly(S) == [1..N -> {El(x) : x \in S}]
Nt(u) == PNtt(u, BFromInt(RootV), LogN, P)
Regs == 0..1
Init == /\ s \in Poly(Keys) /\ k = 0
        /\ r \in {<<x, y>> : x \in Poly(E0) \X Poly(E0), y \in Poly(E1) \X Poly(E1)}
        /\ ph = <<RPhase(r[1], s, P), RPhase(r[2], s, P)>>
Step == k < Steps /\ k' = k + 1 /\ s' = s
Put(c, p) == r' = <<c, r[2]>> /\ ph' = <<p, ph[2]>>
Add == Step /\ Put(RAdd(r[1], r[2], P), PAdd(ph[1], ph[2], P))
Sub == Step /\ Put(RSub(r[1], r[2], P), PSub(ph[1], ph[2], P))
Swap == Step /\ r' = <<r[2], r[1]>> /\ ph' = <<ph[2], ph[1]>>
MulP == Step /\ \E p \in Poly(E1) : Put(RMulP(r[1], p, P), PMul(ph[1], p, P))
Shift == Step /\ \E d \in 0..(2 * N) : Put(RSub(RShift(r[1], d, P), r[1], P),
                                         PMul(ph[1], PSub(PMonomial(N, <<1>>, d, P), POne(N), P), P))
ShAdd == Step /\ \E d \in 0..(2 * N) : Put(RAdd(r[1], RShift(r[2], d, P), P),
                                         PAdd(ph[1], PMul(ph[2], PMonomial(N, <<1>>, d, P), P), P))
Next == Add \/ Sub \/ Swap \/ MulP \/ Shift \/ ShAdd
Spec == Init /\ [][Next]_vars
Linear == \A i \in 1..2 : RPhase(r[i], s, P) = ph[i]
TForm == \A i \in 1..2 : Nt(ph[i]) = PSub(Nt(r[i][2]), PHad(Nt(r[i][1]), Nt(s), P), P)
Prefix(u, d) == [i \in 1..N |-> IF i <= d THEN u[i] ELSE << >>]
Extraction ==
    /\ LwePhase(Extract(r[1], N, P), s, P) = ph[1][1]
    /\ LwePhase(ExtractRev(r[1], N), RevKey(s, P), P) = ph[1][1]
    /\ \A d \in 1..N : LwePhase(Extract(r[1], d, P), s, P) = RPhase(r[1], Prefix(s, d), P)[1]
=============================================================================
