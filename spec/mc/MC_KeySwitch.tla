---------------------------- MODULE MC_KeySwitch ----------------------------
(* LWE key switching by table lookup.  Tab(j, i, v) is an encryption of v * B^j * z[i] under the  *)
(* small key with any mask of a family.  One step consumes one digit of one coefficient.  At any  *)
(* moment the phase of the accumulator plus what is left equals the inner product, so the result  *)
(* has the phase of the input; every ciphertext, key, digit base and mask family.                 *)
EXTENDS Fhe, Integers, Sequences, TLC
CONSTANTS QV, RN, SN, Bits
Masks == {<<0, 0, 0>>, <<1, 2, 3>>, <<5, 1, 6>>}
VARIABLES s, z, c, bits, f, rest, acc, j, i
vars == <<s, z, c, bits, f, rest, acc, j, i>>
Q == BFromInt(QV)
Res == {BFromInt(x) : x \in 0..(QV - 1)}
Sg == {0 - 1, 0, 1}
LenQ == CeilDiv(Log2Ceil(QV), bits)
Base == Pow2(bits)
Init == /\ s \in [1..SN -> Sg] /\ z \in [1..RN -> Sg] /\ bits \in Bits /\ f \in Masks
        /\ c \in [1..(RN + 1) -> Res] /\ rest = Front_(c) /\ acc = PZero(SN + 1) /\ j = 0 /\ i = 1
Mask(jj, ii, v) == [x \in 1..SN |-> BFromInt(((f[1] * jj) + (f[2] * ii) + (f[3] * v) + x) % QV)]
Tab(jj, ii, v) ==
    LET m == Mask(jj, ii, v)
        p == BMulMod(BFromInt((v * Pow2(bits * jj)) % QV), Signed(z[ii], Q), Q)
    IN  Append(m, BAddMod(BDotMod(m, Lift(s, Q), Q), p, Q))
Step == /\ j < LenQ /\ UNCHANGED <<s, z, c, bits, f>>
        /\ \E d \in {BToInt(BMod(rest[i], BFromInt(Base)))} :
             /\ rest' = [rest EXCEPT ![i] = BDiv(rest[i], BFromInt(Base))]
             /\ acc' = IF d = 0 THEN acc ELSE PAdd(acc, Tab(j, i, d), Q)
        /\ (IF i < RN THEN i' = i + 1 /\ j' = j ELSE i' = 1 /\ j' = j + 1)
Next == Step
Spec == Init /\ [][Next]_vars
(* what the unconsumed digits still stand for *)
Left(k) == BMulMod(BMulMod(rest[k], BPow2(bits * (IF k < i THEN j + 1 ELSE j)), Q), Signed(z[k], Q), Q)
RECURSIVE LeftSum(_)
LeftSum(k) == IF k = 0 THEN << >> ELSE BAddMod(LeftSum(k - 1), Left(k), Q)
Loop == BAddMod(LwePhase(acc, Lift(s, Q), Q), LeftSum(RN), Q) = BDotMod(Front_(c), Lift(z, Q), Q)
Final == j = LenQ =>
    LET r == PNeg(acc, Q)
        o == [r EXCEPT ![SN + 1] = BAddMod(r[SN + 1], c[RN + 1], Q)]
    IN  LwePhase(o, Lift(s, Q), Q) = LwePhase(c, Lift(z, Q), Q)
=============================================================================
