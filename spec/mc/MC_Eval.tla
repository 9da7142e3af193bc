-------------------------------- MODULE MC_Eval --------------------------------
(* Evaluation as it runs: calls on several threads, each a sequence of steps that read the key and   *)
(* the operands and work in scratch memory; a selection forks two conjunctions, which run in either  *)
(* order or interleaved, and joins them.  Values are abstract: a gate's result is a function F of    *)
(* its operands.  Every interleaving of the calls gives the results of calls alone.                  *)
(* Shared = TRUE is the design the property rules out: scratch memory that calls have in common.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Vals, Shared, Calls, AllInits
VARIABLES pc, arg, scratch, res, memo, left, sub, wires
vars == <<pc, arg, scratch, res, memo, left, sub, wires>>
NV == Cardinality(Vals)
(* any functions will do that depend on all operands and are not symmetric *)
And(a, b) == ((2 * a) + b + 1) % NV
Not(a) == (a + 1) % NV
Or(a, b) == (a + (2 * b)) % NV
Mux(a, b, c) == Or(And(a, b), And(Not(a), c))
Inits == IF AllInits THEN [0..2 -> Vals] ELSE {[i \in 0..2 |-> i % NV]}
(* workers: a thread, or one half of a thread's selection *)
Halves == {0, 1, 2}
Work == Threads \X Halves
Sc(w) == IF Shared THEN <<0, 0>> ELSE w
Init == /\ pc = [w \in Work |-> "idle"] /\ arg = [w \in Work |-> << >>] /\ scratch = [w \in Work \cup {<<0, 0>>} |-> 0]
        /\ res = [w \in Work |-> 0] /\ memo = {} /\ left = Calls /\ sub = [t \in Threads |-> << >>]
        /\ wires \in Inits
Start(t) == LET w == <<t, 0>> IN
    /\ pc[w] = "idle" /\ sub[t] = << >> /\ left > 0 /\ left' = left - 1
    /\ \E a, b \in 0..2 : arg' = [arg EXCEPT ![w] = <<wires[a], wires[b]>>]
    /\ pc' = [pc EXCEPT ![w] = "load"] /\ UNCHANGED <<scratch, res, memo, sub, wires>>
(* one gate: load the first operand into scratch, combine with the second, publish *)
Load(w) == /\ pc[w] = "load" /\ scratch' = [scratch EXCEPT ![Sc(w)] = arg[w][1]]
           /\ pc' = [pc EXCEPT ![w] = "work"] /\ UNCHANGED <<arg, res, memo, left, sub, wires>>
Work1(w) == /\ pc[w] = "work" /\ scratch' = [scratch EXCEPT ![Sc(w)] = And(@, arg[w][2])]
            /\ pc' = [pc EXCEPT ![w] = "publish"] /\ UNCHANGED <<arg, res, memo, left, sub, wires>>
Publish(w) == /\ pc[w] = "publish" /\ res' = [res EXCEPT ![w] = scratch[Sc(w)]]
              /\ pc' = [pc EXCEPT ![w] = IF w[2] = 0 THEN "idle" ELSE "done"]
              /\ memo' = memo \cup {<<"and", arg[w], scratch[Sc(w)]>>}
              /\ UNCHANGED <<arg, scratch, left, sub, wires>>
(* a selection: operands are shared between the halves, joined when both are done *)
Fork(t) == /\ pc[<<t, 0>>] = "idle" /\ sub[t] = << >> /\ left > 0 /\ left' = left - 1
           /\ \E a, b, c \in 0..2 :
                /\ sub' = [sub EXCEPT ![t] = <<wires[a], wires[b], wires[c]>>]
                /\ arg' = [arg EXCEPT ![<<t, 1>>] = <<wires[a], wires[b]>>, ![<<t, 2>>] = <<Not(wires[a]), wires[c]>>]
           /\ pc' = [pc EXCEPT ![<<t, 1>>] = "load", ![<<t, 2>>] = "load"]
           /\ UNCHANGED <<scratch, res, memo, wires>>
Join(t) == /\ sub[t] # << >> /\ pc[<<t, 1>>] = "done" /\ pc[<<t, 2>>] = "done"
           /\ memo' = memo \cup {<<"mux", sub[t], Or(res[<<t, 1>>], res[<<t, 2>>])>>}
           /\ sub' = [sub EXCEPT ![t] = << >>]
           /\ pc' = [pc EXCEPT ![<<t, 1>>] = "idle", ![<<t, 2>>] = "idle"]
           /\ UNCHANGED <<arg, scratch, res, left, wires>>
Next == \/ \E t \in Threads : Start(t) \/ Fork(t) \/ Join(t)
        \/ \E w \in Work : Load(w) \/ Work1(w) \/ Publish(w)
Spec == Init /\ [][Next]_vars
Pure == \A x, y \in memo : x[1] = y[1] /\ x[2] = y[2] => x[3] = y[3]
Right == \A x \in memo : x[3] = IF x[1] = "and" THEN And(x[2][1], x[2][2]) ELSE Mux(x[2][1], x[2][2], x[2][3])
Untouched == [][wires' = wires]_vars
=============================================================================
