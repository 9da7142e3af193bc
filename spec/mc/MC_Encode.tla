------------------------------ MODULE MC_Encode ------------------------------
(* Encoding and decoding over every message space and modulus of the sets: every perturbation     *)
(* below half a step decodes to the message, decoding is nearest, and encrypt-perturb-decrypt     *)
(* returns the message with the exact distance, for every key and mask.                           *)
EXTENDS Fhe, Integers, Sequences, TLC
CONSTANTS Qs, N
VARIABLES q, t, msg, e, g, a, c
vars == <<q, t, msg, e, g, a, c>>
B(x) == BFromInt(x)
Res(m) == {B(i) : i \in 0..(m - 1)}
Init == /\ q \in Qs /\ t \in {x \in Qs \cup {1, 2} : x <= q}
        /\ msg \in 0..(t - 1) /\ e \in (0 - (q \div 2))..(q \div 2)
        /\ g \in [1..N -> {0 - 1, 0, 1}] /\ a \in [1..N -> Res(q)] /\ c = << >>
Encrypt == /\ c = << >> /\ UNCHANGED <<q, t, msg, e, g, a>>
           /\ c' = Append(a, BAddMod(BAddMod(BDotMod(a, Lift(g, B(q)), B(q)), Enc(B(msg), B(t), B(q)), B(q)),
                                     B((e + q) % q), B(q)))
Next == Encrypt
Spec == Init /\ [][Next]_vars
Step == q \div t
Abs_(x) == IF x < 0 THEN 0 - x ELSE x
Right == c # << >> =>
    LET p == LwePhase(c, Lift(g, B(q)), B(q)) d == Decode(p, B(t), B(q))
    IN  /\ 2 * Abs_(e) < Step => /\ d = B(msg)
                                 /\ BToInt(Cyc(p, Enc(d, B(t), B(q)), B(q))) = Abs_(e)
        /\ IsDecode(p, d, B(t), B(q))
        /\ \A m \in 0..(t - 1) : IsDecode(p, B(m), B(t), B(q)) =>
             BLe(Cyc(p, Enc(B(m), B(t), B(q)), B(q)), Cyc(p, Enc(d, B(t), B(q)), B(q)))
(* the shifts of the implementation compute the same decoding *)
ShiftOk == (msg = 0 /\ e = 0) => \A x \in 0..(q - 1) : t < q =>
    LET tmp == x \div (Step \div 2) IN ((tmp \div 2) + (tmp % 2)) % t = BToInt(Decode(B(x), B(t), B(q)))
=============================================================================
