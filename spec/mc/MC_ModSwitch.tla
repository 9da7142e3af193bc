----------------------------- MODULE MC_ModSwitch -----------------------------
(* Modulus switching of every ciphertext over every pair of small moduli, every key, with the     *)
(* rounding direction of exact halves left open: components stay reduced, and the phase moves by  *)
(* at most half a unit for the body and for every nonzero key coefficient.                        *)
EXTENDS Fhe, Integers, Sequences, TLC
CONSTANTS Befores, Afters, N
VARIABLES q0, q1, g, c, d, done
vars == <<q0, q1, g, c, d, done>>
Res(m) == {BFromInt(i) : i \in 0..(m - 1)}
Init == /\ q0 \in Befores /\ q1 \in Afters
        /\ g \in [1..N -> {0 - 1, 0, 1}]
        /\ c \in [1..(N + 1) -> Res(q0)] /\ d = << >> /\ done = FALSE
B0 == BFromInt(q0)
B1 == BFromInt(q1)
(* one component at a time, in any rounding of a half *)
Next == /\ ~done /\ UNCHANGED <<q0, q1, g, c>>
        /\ \E w \in Res(q1) : IsSwitch(c[Len(d) + 1], w, B0, B1) /\ d' = Append(d, w)
        /\ done' = (Len(d) = N)
Spec == Init /\ [][Next]_vars
Once == d = << >> /\ \A i \in 1..(N + 1) : c[i] = << >>
Exists == Once => \A v \in Res(q0) : \E w \in Res(q1) : IsSwitch(v, w, B0, B1)
PhaseOk == done =>
    LET p == LwePhase(c, Lift(g, B0), B0)
        w == LwePhase(d, Lift(g, B1), B1)
        x == Cyc(BMul(w, B0), BMul(p, B1), BMul(B0, B1))
    IN  /\ BLe(BMul(<<2>>, x), BMul(B0, BFromInt(Weight(g) + 1)))
        /\ BToInt(w) \in SwitchPhases(c, g, B0, q1)
(* conversely every listed phase arises *)
DownOk == Once => \A v \in Res(q0) : \A w \in Res(q1) :
    IsSwitch(v, w, B0, B1) <=> \/ w = BMod(SwitchDown(v, B0, B1), B1)
                               \/ Tie(v, B0, B1) /\ w = BMod(BAdd(SwitchDown(v, B0, B1), <<1>>), B1)
=============================================================================
