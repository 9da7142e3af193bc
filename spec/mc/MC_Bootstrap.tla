----------------------------- MODULE MC_Bootstrap -----------------------------
(* The whole bootstrapping pipeline with noiseless keys, as the sequence of ciphertexts it goes   *)
(* through, for every input ciphertext, every LWE and ring key and several tables:                *)
(*   (n,q) -switch-> (n,2N) -rotate-> (N,Q) -+Q/8, extract-> (N,Q)                                *)
(*      BrMsKs: -switch-> (N,q) -key switch-> (n,q)                                               *)
(*      BrKsMs: -key switch-> (n,Q) -switch-> (n,q)                                               *)
(*      BrMs:   -switch-> (n,q)         (n = N, one key)                                          *)
(* Key switching and rotation take any ciphertext with the right phase (MC_KeySwitch,             *)
(* MC_RingSwitch, MC_BlindRotate, MC_Gadget), masks from a family.  Every rounding of halves.     *)
EXTENDS Fhe, Integers, Sequences, TLC
CONSTANTS PV, N, LN, QVs, Steps, Luts
VARIABLES q, steps, g, z, c, cur, lut, stage, mk, x0
vars == <<q, steps, g, z, c, cur, lut, stage, mk, x0>>
P == BFromInt(PV)
Two == BFromInt(2 * N)
B(x) == BFromInt(x)
E8 == B(PV \div 8)
Sg == {0 - 1, 0, 1}
Neg8 == BNeg(E8, P)
LutSet == {[i \in 1..N |-> IF i <= k THEN E8 ELSE Neg8] : k \in Luts}
Res(m) == {B(i) : i \in 0..(m - 1)}
Init == /\ q \in QVs /\ steps \in Steps /\ lut \in LutSet /\ mk \in 0..1
        /\ g \in [1..LN -> Sg] /\ z \in [1..N -> Sg] /\ (steps = "BrMs" => LN = N /\ z = g)
        /\ c \in [1..(LN + 1) -> Res(q)]
        /\ cur = c /\ stage = "in" /\ x0 = << >>
Keep == UNCHANGED <<q, steps, g, z, c, lut, mk>>
(* switch one component at a time is MC_ModSwitch; here halves all go one way or the other *)
Sw(v, a, b, up) == IF Tie(v, a, b) /\ up THEN BMod(BAdd(SwitchDown(v, a, b), <<1>>), b) ELSE BMod(SwitchDown(v, a, b), b)
SwV(v, a, b, up) == [i \in 1..Len(v) |-> Sw(v[i], a, b, up)]
First == /\ stage = "in" /\ stage' = "two" /\ Keep /\ x0' = x0
         /\ \E up \in BOOLEAN : cur' = SwV(cur, B(q), Two, up)
(* any ring ciphertext whose phase has the selected constant coefficient, extracted *)
Mask(k, m) == [i \in 1..k |-> B(((mk * 5 * i) + mk) % m)]
Fresh(msg, key, k, mv) == LET a == Mask(k, mv) IN Append(a, BAddMod(BDotMod(a, Lift(key, B(mv)), B(mv)), msg, B(mv)))
Rotate == /\ stage = "two" /\ stage' = "ring" /\ Keep
          /\ \A p \in {BToInt(LwePhase(cur, Lift(g, Two), Two))} :
               /\ x0' = BAddMod(LutAt(lut, p, P), E8, P)
               /\ cur' = Fresh(x0', z, N, PV)
SwitchDown_ == /\ Keep /\ x0' = x0
               /\ \/ stage = "ring" /\ steps = "BrMsKs" /\ stage' = "small"
                  \/ stage = "ring" /\ steps = "BrMs" /\ stage' = "out"
                  \/ stage = "keyed" /\ stage' = "out"
               /\ cur' = SwV(cur, P, B(q), FALSE)
Key == /\ Keep /\ x0' = x0
       /\ \/ stage = "ring" /\ steps = "BrKsMs" /\ stage' = "keyed" /\ cur' = Fresh(LwePhase(cur, Lift(z, P), P), g, LN, PV)
          \/ stage = "small" /\ stage' = "out" /\ cur' = Fresh(LwePhase(cur, Lift(z, B(q)), B(q)), g, LN, q)
Next == First \/ Rotate \/ SwitchDown_ \/ Key
Spec == Init /\ [][Next]_vars
H == IF steps = "BrMsKs" THEN Weight(z) ELSE Weight(g)
(* what C02 promises: the output's phase is an entry selected by a phase of the input, plus Q/8 *)
Result == stage = "out" =>
    \E p \in SwitchPhases(c, g, B(q), 2 * N) :
        /\ x0 = BAddMod(LutAt(lut, p, P), E8, P)
        /\ LET w == LwePhase(cur, Lift(g, B(q)), B(q))
               d == Cyc(BMul(w, P), BMul(B(q), x0), BMul(B(q), P))
           IN  BLe(BMul(<<2>>, d), BMul(P, B(H + 1)))
        /\ Len(cur) = LN + 1 /\ \A i \in 1..Len(cur) : BLt(cur[i], B(q))
Dims == CASE stage = "in" -> Len(cur) = LN + 1
          [] stage = "two" -> Len(cur) = LN + 1 /\ \A i \in 1..Len(cur) : BLt(cur[i], Two)
          [] stage \in {"ring", "small"} -> Len(cur) = N + 1
          [] OTHER -> Len(cur) = LN + 1
=============================================================================
