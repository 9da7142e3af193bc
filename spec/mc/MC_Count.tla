----------------------------- MODULE MC_Count -----------------------------
(***************************************************************************)
(* Threads transform while a controller turns counting on and off and      *)
(* clears.  A transform looks at the switch once and then adds one, in one *)
(* step (Atomic) or as a read and a write.  On an idle system the counter  *)
(* holds at least the transforms that ran entirely while counting was on   *)
(* and after the last clearing, and at most those that overlapped such a   *)
(* time; without a controller's step beside them, exactly Count!Work.      *)
(* With Atomic = FALSE transforms get lost.                                *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, Ops, Turns, Atomic
C == INSTANCE Count
VARIABLES on, n, pc, left, all, any, reg, sure, may, turns, pure
vars == <<on, n, pc, left, all, any, reg, sure, may, turns, pure>>
Init == /\ on = FALSE /\ n = 0 /\ turns = Turns /\ sure = 0 /\ may = 0
        /\ pc = [t \in Threads |-> "idle"] /\ left = [t \in Threads |-> Ops]
        /\ all = [t \in Threads |-> FALSE] /\ any = [t \in Threads |-> FALSE] /\ reg = [t \in Threads |-> 0]
        /\ pure = C!State0                   \* the abstract state, while the controller acts only on an idle system; else on = FALSE, fwd = -1
Start(t) == /\ pc[t] = "idle" /\ left[t] > 0
            /\ pc' = [pc EXCEPT ![t] = "look"] /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ all' = [all EXCEPT ![t] = on] /\ any' = [any EXCEPT ![t] = on]
            /\ may' = IF on THEN may + 1 ELSE may
            /\ pure' = IF pure.fwd >= 0 THEN C!Work(pure, 1, 0) ELSE pure
            /\ UNCHANGED <<on, n, reg, sure, turns>>
Look(t) == /\ pc[t] = "look"
           /\ pc' = [pc EXCEPT ![t] = IF ~on THEN "end" ELSE "add"]
           /\ UNCHANGED <<on, n, left, all, any, reg, sure, may, turns, pure>>
Add(t) == /\ pc[t] = "add" /\ Atomic
          /\ n' = n + 1 /\ pc' = [pc EXCEPT ![t] = "end"]
          /\ UNCHANGED <<on, left, all, any, reg, sure, may, turns, pure>>
Read(t) == /\ pc[t] = "add" /\ ~Atomic
           /\ reg' = [reg EXCEPT ![t] = n] /\ pc' = [pc EXCEPT ![t] = "write"]
           /\ UNCHANGED <<on, n, left, all, any, sure, may, turns, pure>>
Write(t) == /\ pc[t] = "write"
            /\ n' = reg[t] + 1 /\ pc' = [pc EXCEPT ![t] = "end"]
            /\ UNCHANGED <<on, left, all, any, reg, sure, may, turns, pure>>
End(t) == /\ pc[t] = "end"
          /\ pc' = [pc EXCEPT ![t] = "idle"]
          /\ sure' = IF all[t] THEN sure + 1 ELSE sure
          /\ UNCHANGED <<on, n, left, all, any, reg, may, turns, pure>>
Busy == {t \in Threads : pc[t] # "idle"}
Alone(p) == IF Busy = {} THEN p ELSE [on |-> FALSE, fwd |-> -1, inv |-> 0]
Keep(p) == IF pure.fwd < 0 THEN pure ELSE Alone(p)
Turn == /\ turns > 0 /\ turns' = turns - 1 /\ on' = ~on
        /\ all' = [t \in Threads |-> all[t] /\ ~on /\ pc[t] = "idle"]
        \* turned on: every running transform may count from now on
        /\ may' = IF on THEN may ELSE may + Cardinality({t \in Busy : ~any[t]})
        /\ any' = IF on THEN any ELSE [t \in Threads |-> any[t] \/ t \in Busy]
        /\ pure' = Keep(IF on THEN C!TurnOff(pure) ELSE C!TurnOn(pure))
        /\ UNCHANGED <<n, pc, left, reg, sure>>
Clear == /\ turns > 0 /\ turns' = turns - 1 /\ n' = 0
         /\ sure' = 0 /\ may' = Cardinality({t \in Busy : any[t]})
         /\ all' = [t \in Threads |-> FALSE]
         /\ pure' = Keep(C!ClearFwd(pure))
         /\ UNCHANGED <<on, pc, left, any, reg>>
Next == Turn \/ Clear \/ \E t \in Threads : Start(t) \/ Look(t) \/ Add(t) \/ Read(t) \/ Write(t) \/ End(t)
Idle == Busy = {}
Bounds == Idle => sure <= n /\ n <= may
Exact == Idle /\ pure.fwd >= 0 => n = pure.fwd /\ on = pure.on
Apart == pure.inv = 0
=============================================================================
