------------------------------- MODULE MC_Ring -------------------------------
(* Register machine over Z_P[X]/(X^n+1) with polynomials and point-value forms.  sh is the        *)
(* polynomial a point-value register stands for; lazy point values may sit anywhere below 2P      *)
(* until they are converted back.  Checked: the two forms stay isomorphic and canonical, and the  *)
(* ring laws, the monomial and evaluation views hold for every pair of elements.                  *)
EXTENDS Arith, Integers, Sequences, TLC
CONSTANTS K, P, Root, Steps, Els
VARIABLES p, q, t, sh, k
vars == <<p, q, t, sh, k>>
n == Pow2(K)
N(u) == Ntt(u, Root, K, P)
Polys == [1..n -> Els]
Init == p \in Polys /\ q \in Polys /\ t = N(q) /\ sh = q /\ k = 0
Canon == VMod(t, P)
Step == k < Steps /\ k' = k + 1
Swap == Step /\ p' = q /\ q' = p /\ UNCHANGED <<t, sh>>
Add  == Step /\ p' = VAdd(p, q, P) /\ UNCHANGED <<q, t, sh>>
Sub  == Step /\ p' = VSub(p, q, P) /\ UNCHANGED <<q, t, sh>>
Mul  == Step /\ p' = NegMul(p, q, P) /\ UNCHANGED <<q, t, sh>>
ToT  == Step /\ t' = N(p) /\ sh' = p /\ UNCHANGED <<p, q>>
FromT== Step /\ q' = sh /\ N(sh) = Canon /\ UNCHANGED <<p, t, sh>>
Reduced == \A i \in 1..n : t[i] < P
TAdd == Step /\ Reduced /\ t' = VAdd(t, N(p), P) /\ sh' = VAdd(sh, p, P) /\ UNCHANGED <<p, q>>
TMul == Step /\ Reduced /\ t' = VHad(t, N(p), P) /\ sh' = NegMul(sh, p, P) /\ UNCHANGED <<p, q>>
TFma == Step /\ LET r == VAdd(Canon, VHad(N(p), N(q), P), P)
                IN  \E s \in SUBSET (1..n) : t' = [i \in 1..n |-> IF i \in s THEN r[i] + P ELSE r[i]]
        /\ sh' = VAdd(sh, NegMul(p, q, P), P) /\ UNCHANGED <<p, q>>
TNeg == Step /\ Reduced /\ t' = VNeg(t, P) /\ sh' = VNeg(sh, P) /\ UNCHANGED <<p, q>>
Next == Swap \/ Add \/ Sub \/ Mul \/ ToT \/ FromT \/ TAdd \/ TMul \/ TFma \/ TNeg
Spec == Init /\ [][Next]_vars
Iso == Canon = N(sh) /\ \A i \in 1..n : t[i] < 2 * P
Type == IsVec(p, n, P) /\ IsVec(q, n, P) /\ IsVec(sh, n, P)
One == [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0]
Mono(d) == MulMono(One, d, P)
Laws == k = 0 =>
    /\ NegMul(p, q, P) = NegMul(q, p, P) /\ NegMul(p, One, P) = p
    /\ NegMul(VAdd(p, q, P), q, P) = VAdd(NegMul(p, q, P), NegMul(q, q, P), P)
    /\ NegMul(NegMul(p, q, P), q, P) = NegMul(p, NegMul(q, q, P), P)
    /\ \A d \in 0..(4 * n) : NegMul(p, Mono(d), P) = MulMono(p, d, P)
    /\ MulMono(p, n, P) = VNeg(p, P)
    /\ N(p) = [i \in 1..n |-> EvalPoly(p, PowMod(Root, 2 * BitRev(i - 1, K) + 1, P), P)]
    /\ (N(p) = N(q)) = (p = q)
=============================================================================
