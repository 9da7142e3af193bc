------------------------------ MODULE MC_Params ------------------------------
(* Construction of parameters as a sequence of checks, each of which may refuse, and generation of *)
(* a key pack and copies of it, for every step order and key type.                                 *)
(*  - a set is accepted exactly when all four conditions hold, whatever the order of the checks;    *)
(*  - every coefficient is in the support of its distribution, the ring key is the LWE key where    *)
(*    there is only one, and every copy decrypts what any copy encrypted.                           *)
EXTENDS Fhe, Integers, Sequences, TLC
CONSTANTS Dims, RingMods, Mods, MaxN
VARIABLES stage, n, Q, t, q, steps, lk, rk, todo, g, z, ntt, copy, ct, msg
vars == <<stage, n, Q, t, q, steps, lk, rk, todo, g, z, ntt, copy, ct, msg>>
B(x) == BFromInt(x)
Checks == {"dim", "compatible", "order", "powers"}
Init == /\ stage = "check" /\ n \in Dims /\ Q \in RingMods /\ t \in Mods /\ q \in Mods
        /\ steps \in {"BrMsKs", "BrKsMs", "BrMs"} /\ lk \in {"Binary", "Ternary"} /\ rk \in {"Binary", "Ternary", "Gaussian"}
        /\ todo = Checks /\ g = << >> /\ z = << >> /\ ntt = << >> /\ copy = 0 /\ ct = << >> /\ msg = 0
RECURSIVE P2(_)
P2(x) == IF x = 0 THEN FALSE ELSE IF x = 1 THEN TRUE ELSE x % 2 = 0 /\ P2(x \div 2)
Pass(c) == CASE c = "dim" -> P2(n)
             [] c = "compatible" -> n # 0 /\ ((Q - 1) \div (2 * n)) * (2 * n) = Q - 1
             [] c = "order" -> t <= q
             [] c = "powers" -> P2(t) /\ P2(q)
Check == \E c \in todo : stage = "check" /\ todo' = todo \ {c} /\ stage' = (IF Pass(c) THEN "check" ELSE "refused")
                         /\ UNCHANGED <<n, Q, t, q, steps, lk, rk, g, z, ntt, copy, ct, msg>>
Accept == stage = "check" /\ todo = {} /\ stage' = "accepted" /\ UNCHANGED <<n, Q, t, q, steps, lk, rk, todo, g, z, ntt, copy, ct, msg>>
Supp(k) == CASE k = "Binary" -> {0, 1} [] k = "Ternary" -> {0 - 1, 0, 1} [] OTHER -> {0 - 2, 0 - 1, 0, 1, 2}
(* the LWE dimension is the ring dimension in this model; the keys are drawn on their own or shared *)
Gen == /\ stage = "accepted" /\ n <= MaxN /\ q >= 2 /\ (rk = "Gaussian" => steps = "BrKsMs")
       /\ stage' = "keys" /\ g' \in [1..n -> Supp(lk)]
       /\ z' \in (IF steps = "BrMs" THEN {g'} ELSE [1..n -> Supp(rk)])
       /\ ntt' = z' /\ UNCHANGED <<n, Q, t, q, steps, lk, rk, todo, copy, ct, msg>>
Clone == stage = "keys" /\ copy < 2 /\ copy' = copy + 1 /\ UNCHANGED <<stage, n, Q, t, q, steps, lk, rk, todo, g, z, ntt, ct, msg>>
Encrypt == /\ stage = "keys" /\ copy > 0 /\ stage' = "sent" /\ msg' \in 0..(t - 1)
           /\ LET a == [i \in 1..n |-> B((7 * i) % q)]
              IN  ct' = Append(a, BAddMod(BDotMod(a, Lift(g, B(q)), B(q)), Enc(B(msg'), B(t), B(q)), B(q)))
           /\ UNCHANGED <<n, Q, t, q, steps, lk, rk, todo, g, z, ntt, copy>>
Next == Check \/ Accept \/ Gen \/ Clone \/ Encrypt
Spec == Init /\ [][Next]_vars
Ok == ParamsOk(B(n), B(Q), B(t), B(q))
Exact == /\ stage \in {"accepted", "keys", "sent"} => Ok
         /\ stage = "refused" => ~Ok
Keys == stage \in {"keys", "sent"} => /\ \A i \in 1..n : g[i] \in Supp(lk)
                                      /\ steps = "BrMs" => z = g
                                      /\ Len(z) = n /\ ntt = z
Back == stage = "sent" => Decode(LwePhase(ct, Lift(g, B(q)), B(q)), B(t), B(q)) = B(msg)
=============================================================================
