------------------------------ MODULE Lattice ------------------------------
(***************************************************************************)
(* LWE and RLWE ciphertexts, gadget and RGSW encryptions, over any modulus *)
(* (big naturals, Ring.tla).                                               *)
(*   LWE:    <<a_1, ..., a_n, b>>        phase  b - <a, s>                 *)
(*   RLWE:   <<a, b>>                    phase  b - a*s in Z_m[X]/(X^n+1)  *)
(*   gadget: <<c_1, ..., c_len>>         phase of c_i  =  B^(i-1) * msg    *)
(*   RGSW:   <<gadget of -s*msg, gadget of msg>>                           *)
(***************************************************************************)
EXTENDS Ring
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

Front_(c) == SubSeq(c, 1, Len(c) - 1)
BDotMod(u, v, m) == LET RECURSIVE S(_)
                        S(i) == IF i = 0 THEN << >> ELSE BAdd(S(i - 1), BMul(u[i], v[i]))
                    IN  BMod(S(Len(u)), m)
LwePhase(c, s, m) == BSubMod(c[Len(c)], BDotMod(Front_(c), SubSeq(s, 1, Len(c) - 1), m), m)

RPhase(c, s, m) == PSub(c[2], PMul(c[1], s, m), m)
RAdd(x, y, m) == <<PAdd(x[1], y[1], m), PAdd(x[2], y[2], m)>>
RSub(x, y, m) == <<PSub(x[1], y[1], m), PSub(x[2], y[2], m)>>
RMulP(x, p, m) == <<PMul(x[1], p, m), PMul(x[2], p, m)>>
RHad(x, p, m) == <<PHad(x[1], p, m), PHad(x[2], p, m)>>
(* u * X^d for 0 <= d <= 2n, by moving coefficients *)
PShift(u, d, m) ==
    LET n == Len(u)
        e == d % (2 * n)
    IN  [k \in 1..n |->
            LET s == (k - 1) - e
                t == IF s >= 0 THEN s ELSE s + 2 * n
            IN  IF t < n THEN u[t + 1] ELSE BNeg(u[(t - n) + 1], m)]
RShift(x, d, m) == <<PShift(x[1], d, m), PShift(x[2], d, m)>>

(* sample extraction: the LWE ciphertext of the constant coefficient under the coefficient vector *)
ExtractA(a, m) == [i \in 1..Len(a) |-> IF i = 1 THEN a[1] ELSE BNeg(a[(Len(a) - i) + 2], m)]
Extract(x, d, m) == Append(SubSeq(ExtractA(x[1], m), 1, d), x[2][1])
(* and the variant that leaves the mask in place, for the reordered key *)
ExtractRev(x, d) == Append(SubSeq(x[1], 1, d), x[2][1])
RevKey(s, m) == ExtractA(s, m)

(* bits of a value, and bits needed for the residues of a modulus *)
BitLen(x) == LET RECURSIVE L(_)
                 L(d) == IF d = 0 THEN 0 ELSE 1 + L(d \div 2)
             IN  IF x = << >> THEN 0 ELSE 15 * (Len(x) - 1) + L(x[Len(x)])
MBits(m) == IF m = BPow2(BitLen(m) - 1) THEN BitLen(m) - 1 ELSE BitLen(m)

(* gadget base 2^bits *)
GadgetLen(mbits, bits) == CeilDiv(mbits, bits)
IsGadget(g, msg, s, bits, m) ==
    \A i \in 1..Len(g) : RPhase(g[i], s, m) = PScale(msg, BPow2(bits * (i - 1)), m)
IsRgsw(g, msg, s, bits, m) ==
    /\ IsGadget(g[2], msg, s, bits, m)
    /\ IsGadget(g[1], PNeg(PMul(s, msg, m), m), s, bits, m)

(* distance of two residues, and of two polynomials in every coefficient *)
Near(x, y, bound, m) == LET d == BSubMod(x, y, m) IN BLe(d, bound) \/ BLe(BSub(m, d), bound)
PNear(u, v, bound, m) == \A i \in Idx(u) : Near(u[i], v[i], bound, m)
=============================================================================
