---------------------------- MODULE MC_RingSwitch ----------------------------
(* Key switching by ring products: a ring ciphertext (or an LWE ciphertext under the ring key) is *)
(* cut into chunks of the extended LWE dimension, each chunk is rearranged so that the constant   *)
(* coefficient of chunk * key part is the inner product, and the products are summed.  Checked:   *)
(* the constant coefficient is the inner product that decryption needs, for every input and key.  *)
EXTENDS Fhe, Integers, Sequences, TLC
CONSTANTS PV, N, Ext
VARIABLES a, z, acc, k, form
vars == <<a, z, acc, k, form>>
P == BFromInt(PV)
Res == {BFromInt(x) : x \in 0..(PV - 1)}
Init == /\ a \in [1..N -> Res] /\ z \in [1..N -> {Signed(x, P) : x \in {0 - 1, 0, 1}}]
        /\ acc = PZero(Ext) /\ k = 0 /\ form \in {"rlwe", "lwe"}
Part(u, c) == SubSeq(u, (c * Ext) + 1, (c + 1) * Ext)
(* coefficients of an LWE mask to a ring mask with the same constant coefficient *)
Flip(u) == ExtractA(u, P)
(* the rearrangement of the implementation for rings larger than the extended dimension *)
NegHead(u) == [i \in 1..Len(u) |-> IF i = 1 THEN BNeg(u[1], P) ELSE u[(Len(u) - i) + 2]]
Chunk(c) == IF form = "lwe" THEN Flip(Part(a, c))
            ELSE IF Ext = N THEN a
            ELSE NegHead(Part(NegHead(a), c))
Next == /\ k < N \div Ext /\ k' = k + 1 /\ UNCHANGED <<a, z, form>>
        /\ acc' = PAdd(acc, PMul(Chunk(k), Part(z, k), P), P)
Spec == Init /\ [][Next]_vars
Final == k = N \div Ext =>
    acc[1] = IF form = "lwe" THEN BDotMod(a, z, P) ELSE PMul(a, z, P)[1]
=============================================================================
