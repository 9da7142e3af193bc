---------------------------- MODULE MC_BlindRotate ----------------------------
(* Blind rotation, one key element at a time, on phases (the products themselves are MC_Gadget).  *)
(* Every table of a set, every key of both kinds, every mask and body in [0, 2N): after i steps   *)
(* the accumulator is table * X^(-b + a_1 s_1 + ... + a_i s_i), so the result is table * X^-phase. *)
EXTENDS Fhe, Integers, Sequences, TLC
CONSTANTS PV, N, LN, Entries
VARIABLES lut, g, c, acc, i, kind
vars == <<lut, g, c, acc, i, kind>>
P == BFromInt(PV)
Two == 2 * N
El(x) == BFromInt(x)
(* the initial rotation as the implementation does it: rotate the table right, negate a part *)
Rot(u, r) == [x \in 1..N |-> u[(((x - 1) - r + N) % N) + 1]]
Start(b) == IF b = 0 THEN lut
            ELSE LET nb == Two - b IN
                 IF nb <= N THEN [x \in 1..N |-> IF x <= nb THEN BNeg(Rot(lut, nb % N)[x], P) ELSE Rot(lut, nb % N)[x]]
                 ELSE [x \in 1..N |-> IF x > nb - N THEN BNeg(Rot(lut, nb - N)[x], P) ELSE Rot(lut, nb - N)[x]]
Init == /\ kind \in {"binary", "ternary"}
        /\ g \in [1..LN -> {0 - 1, 0, 1}] /\ (kind = "binary" => \A x \in 1..LN : g[x] >= 0)
        /\ lut \in [1..N -> {El(x) : x \in Entries}]
        /\ c \in [1..(LN + 1) -> 0..(Two - 1)]
        /\ acc = Start(c[LN + 1]) /\ i = 0
(* ternary: one key encrypts [s = 1], the other [s = -1]; factor k0 - k1 * X^-a *)
Factor(a, sg) == IF kind = "binary" THEN (IF sg = 1 THEN POne(N) ELSE PZero(N))
                 ELSE PSub(IF sg = 1 THEN POne(N) ELSE PZero(N),
                           IF sg = 0 - 1 THEN PMonomial(N, <<1>>, Two - a, P) ELSE PZero(N), P)
Step == /\ i < LN /\ i' = i + 1 /\ UNCHANGED <<lut, g, c, kind>>
        /\ LET a == c[i + 1] IN
           acc' = IF a = 0 THEN acc
                  ELSE PAdd(acc, PMul(PSub(PShift(acc, a, P), acc, P), Factor(a, g[i + 1]), P), P)
Next == Step
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_)
Sum(k) == IF k = 0 THEN 0 ELSE Sum(k - 1) + (c[k] * g[k])
Exp(k) == ((Sum(k) - c[LN + 1]) + (Two * 2 * LN * Two)) % Two
Loop == acc = PShift(lut, Exp(i), P)
Table == i = LN =>
    LET p == (Two - Exp(LN)) % Two IN
    /\ BToInt(LwePhase([x \in 1..(LN + 1) |-> BFromInt(c[x])], Lift(g, BFromInt(Two)), BFromInt(Two))) = p
    /\ acc[1] = LutAt(lut, p, P)
=============================================================================
