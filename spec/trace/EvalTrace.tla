------------------------------- MODULE EvalTrace -------------------------------
(* Histories of evaluations.  Ciphertext contents are numbers, equal exactly when the contents are.  *)
(* Wires hold contents; a round of concurrent calls reads the wires as they were when it began and   *)
(* writes them when it ends.  memo: the result of every gate on every operands seen so far.          *)
EXTENDS TraceKit
VARIABLES wires, memo, pend
Init == /\ TkInit /\ wires = Head0.wires /\ memo = << >> /\ pend = {}
Key == <<E.g, E.args>>
(* operands are untouched, and the result is the one seen before, whoever asked *)
Known == /\ E.after = E.args
         /\ Key \in DOMAIN memo => memo[Key] = E.res
         /\ memo' = IF Key \in DOMAIN memo THEN memo ELSE (Key :> E.res) @@ memo
Call == /\ Eat("call") /\ Known /\ UNCHANGED wires
        /\ \A i \in 1..Len(E.args) : E.args[i] = wires[E.src[i] + 1]
        /\ \A p \in pend : p[1] # E.th /\ p[2] # E.d
        /\ pend' = pend \cup {<<E.th, E.d, E.res>>}
Side == Eat("side") /\ Known /\ UNCHANGED <<wires, pend>>
Sync == /\ Eat("sync") /\ UNCHANGED memo /\ pend' = {}
        /\ wires' = [i \in 1..Len(wires) |-> IF \E p \in pend : p[2] = i - 1
                                              THEN (CHOOSE p \in pend : p[2] = i - 1)[3] ELSE wires[i]]
Fresh == /\ Eat("fresh") /\ pend = {} /\ wires' = [wires EXCEPT ![E.d + 1] = E.res] /\ UNCHANGED <<memo, pend>>
Quiet == Eat("quiet") /\ UNCHANGED <<wires, memo, pend>>
(* a selection is the disjunction of the two conjunctions *)
At(g, args) == memo[<<g, args>>]
MuxDef == /\ Eat("muxdef") /\ UNCHANGED <<wires, memo, pend>>
          /\ LET a == E.args[1] b2 == E.args[2] c == E.args[3]
             IN  At("mux", E.args) = At("or", << At("and", <<a, b2>>), At("and", << At("not", <<a>>), c>>) >>)
Next == Call \/ Side \/ Sync \/ Fresh \/ Quiet \/ MuxDef \/ (AtEnd /\ UNCHANGED <<wires, memo, pend>>)
=============================================================================
