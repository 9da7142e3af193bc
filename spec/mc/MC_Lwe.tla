-------------------------------- MODULE MC_Lwe --------------------------------
(* Register machine over LWE ciphertexts.  ph is what each register is meant to decrypt to.       *)
(* Checked for every key, every ciphertext and every modulus value: the phase of a register is    *)
(* always the combination of the phases that went in, and components stay reduced.                *)
EXTENDS Lattice, Integers, Sequences, TLC
CONSTANTS MVal, N, Steps
VARIABLES s, r, ph, k
vars == <<s, r, ph, k>>
M == BFromInt(MVal)
Res == {BFromInt(i) : i \in 0..(MVal - 1)}
Cts == [1..(N + 1) -> Res]
Regs == 0..1
Phase(c) == LwePhase(c, s, M)
Init == /\ s \in [1..N -> Res] /\ r \in [Regs -> Cts] /\ k = 0
        /\ ph = [i \in Regs |-> Phase(r[i])]
Step == k < Steps /\ k' = k + 1 /\ s' = s
Put(d, c, p) == r' = [r EXCEPT ![d] = c] /\ ph' = [ph EXCEPT ![d] = p]
Add == Step /\ \E d, a, b \in Regs : Put(d, PAdd(r[a], r[b], M), BAddMod(ph[a], ph[b], M))
Sub == Step /\ \E d, a, b \in Regs : Put(d, PSub(r[a], r[b], M), BSubMod(ph[a], ph[b], M))
Neg == Step /\ \E d, a \in Regs : Put(d, PNeg(r[a], M), BSubMod(<< >>, ph[a], M))
Scale == Step /\ \E d, a \in Regs, x \in Res : Put(d, PScale(r[a], x, M), BMulMod(ph[a], x, M))
Fma == Step /\ \E d, b \in Regs, x \in Res :
         Put(d, PAdd(r[d], PScale(r[b], x, M), M), BAddMod(ph[d], BMulMod(ph[b], x, M), M))
(* a fresh encryption of zero: any mask, the body is the inner product plus the error *)
Fresh == Step /\ \E d \in Regs, a \in [1..N -> Res], e \in Res :
           Put(d, Append(a, BAddMod(BDotMod(a, s, M), e, M)), e)
Next == Add \/ Sub \/ Neg \/ Scale \/ Fma \/ Fresh
Spec == Init /\ [][Next]_vars
Linear == \A i \in Regs : Phase(r[i]) = ph[i]
Reduced == \A i \in Regs : PCanon(r[i], N + 1, M) /\ BLt(ph[i], M)
=============================================================================
