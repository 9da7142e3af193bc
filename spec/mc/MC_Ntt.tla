------------------------------- MODULE MC_Ntt -------------------------------
(***************************************************************************)
(* The in-place transforms as state machines, one butterfly per step, with *)
(* lazily reduced values: a lazy product may be either representative      *)
(* below 2p.  Checked: every intermediate value stays in its range (so no  *)
(* word overflows when 4p fits), the forward machine ends in the values at *)
(* the odd root powers in bit-reversed order, and the inverse machine      *)
(* started from any lazy form of them ends in the input.                   *)
(***************************************************************************)
EXTENDS Arith, Integers, Sequences, TLC
CONSTANTS K, P, Root, Vals
VARIABLES v, inp, ph, st, c, i      \* st: stage, c: chunk, i: offset in the chunk
vars == <<v, inp, ph, st, c, i>>
n == Pow2(K)
InvRoot == PowMod(Root, 2 * n - 1, P)
NInv == PowMod(n, P - 2, P)
RootPow(x) == PowMod(Root, BitRev(x, K), P)                        \* table position x
InvPow(x) == IF x = 0 THEN 1 ELSE PowMod(InvRoot, BitRev(x - 1, K) + 1, P)
Lazy(x) == {x % P, (x % P) + P}
Init == /\ inp \in [1..n -> Vals]
        /\ v = inp /\ ph = "fwd" /\ st = 0 /\ c = 0 /\ i = 0
Gap == IF ph = "fwd" THEN Pow2(K - 1 - st) ELSE Pow2(st)
Advance == IF i + 1 < Gap THEN i' = i + 1 /\ UNCHANGED <<c, st, ph>>
           ELSE IF (c + 1) * 2 * Gap < n THEN c' = c + 1 /\ i' = 0 /\ UNCHANGED <<st, ph>>
           ELSE c' = 0 /\ i' = 0 /\ (IF st + 1 < K THEN st' = st + 1 /\ ph' = ph
                                     ELSE st' = 0 /\ ph' = (IF ph = "fwd" THEN "norm" ELSE "norm2"))
Lo == c * 2 * Gap + i + 1
Hi == Lo + Gap
Guard(x) == IF x >= 2 * P THEN x - 2 * P ELSE x
Fwd == /\ ph = "fwd" /\ st < K
       /\ \E t \in Lazy(v[Hi] * RootPow(Pow2(st) + c)) :
            v' = [v EXCEPT ![Lo] = Guard(v[Lo]) + t, ![Hi] = Guard(v[Lo]) + 2 * P - t]
       /\ Advance /\ UNCHANGED inp
Norm == /\ ph = "norm"
        /\ v' = [x \in 1..n |-> LET r == Guard(v[x]) IN IF r >= P THEN r - P ELSE r]
        /\ ph' = "fwdend" /\ UNCHANGED <<inp, st, c, i>>
(* leave: any lazily reduced form below 2p may be handed to the inverse *)
Relax == /\ ph = "fwdend"
         /\ \E s \in SUBSET (1..n) : v' = [x \in 1..n |-> IF x \in s THEN v[x] + P ELSE v[x]]
         /\ ph' = "inv" /\ UNCHANGED <<inp, st, c, i>>
(* position in the inverse table: stages consume n/2, n/4, ... entries *)
InvIdx == 1 + (n - n \div Pow2(st)) + c
Inv == /\ ph = "inv"
       /\ LET a == v[Lo]
              b == v[Hi]
          IN IF st < K - 1
             THEN \E t \in Lazy((a + 2 * P - b) * InvPow(InvIdx)) :
                    v' = [v EXCEPT ![Lo] = Guard(a + b), ![Hi] = t]
             ELSE \E s \in Lazy((a + b) * NInv), t \in Lazy((a + 2 * P - b) * ((InvPow(InvIdx) * NInv) % P)) :
                    v' = [v EXCEPT ![Lo] = s, ![Hi] = t]
       /\ Advance /\ UNCHANGED inp
Norm2 == /\ ph = "norm2"
         /\ v' = [x \in 1..n |-> IF v[x] >= P THEN v[x] - P ELSE v[x]]
         /\ ph' = "end" /\ UNCHANGED <<inp, st, c, i>>
Next == Fwd \/ Norm \/ Relax \/ Inv \/ Norm2
Spec == Init /\ [][Next]_vars
Range == \A x \in 1..n : v[x] >= 0 /\ v[x] < (IF ph \in {"fwd", "norm"} THEN 4 * P
                                             ELSE IF ph \in {"fwdend", "end"} THEN P ELSE 2 * P)
FwdOk == ph = "fwdend" => v = Ntt(VMod(inp, P), Root, K, P)
InvOk == ph = "end" => v = VMod(inp, P)
=============================================================================
