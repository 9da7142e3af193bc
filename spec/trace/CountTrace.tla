----------------------------- MODULE CountTrace -----------------------------
(* Recorded histories of the counters; every event carries what they read  *)
(* afterwards.                                                             *)
EXTENDS TraceKit
C == INSTANCE Count
VARIABLES s, cost
Init == TkInit /\ s = [C!State0 EXCEPT !.fwd = Head0.fwd, !.inv = Head0.inv] /\ cost = << >>
Reads(t) == E.fwd = t.fwd /\ E.inv = t.inv
Go(op, t) == Eat(op) /\ Reads(t) /\ s' = t /\ UNCHANGED cost
On == Go("on", C!TurnOn(s))
Off == Go("off", C!TurnOff(s))
ClrF == Go("clrf", C!ClearFwd(s))
ClrI == Go("clri", C!ClearInv(s))
Work == Go("work", C!Work(s, E.f, E.i))
Beside == Eat("beside") /\ (\A t \in {[s EXCEPT !.fwd = E.fwd, !.inv = E.inv, !.on = E.on]} : C!Within(s, E.f, E.i, t) /\ s' = t) /\ UNCHANGED cost
(* an evaluation: nothing while off; the same one costs the same each time *)
Gate == /\ Eat("gate")
        /\ \A d \in {<<E.fwd - s.fwd, E.inv - s.inv>>} :
              /\ IF s.on THEN d[1] > 0 /\ d[2] > 0 ELSE d = <<0, 0>>
              /\ s.on /\ E.g \in DOMAIN cost => cost[E.g] = d
              /\ cost' = IF s.on THEN (E.g :> d) @@ cost ELSE cost
        /\ s' = [s EXCEPT !.fwd = E.fwd, !.inv = E.inv]
Next == On \/ Off \/ ClrF \/ ClrI \/ Work \/ Beside \/ Gate \/ (AtEnd /\ UNCHANGED <<s, cost>>)
=============================================================================
