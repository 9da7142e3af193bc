------------------------------- MODULE Count -------------------------------
(***************************************************************************)
(* The transform counters.  State: whether counting is on, and two         *)
(* counters.  Each forward or inverse transform made while counting is on, *)
(* by any thread, with any table of any field, adds one to its counter;    *)
(* nothing else changes them but clearing.                                 *)
(***************************************************************************)
LOCAL INSTANCE Integers
State0 == [on |-> FALSE, fwd |-> 0, inv |-> 0]
TurnOn(s)   == [s EXCEPT !.on = TRUE]
TurnOff(s)  == [s EXCEPT !.on = FALSE]
ClearFwd(s) == [s EXCEPT !.fwd = 0]
ClearInv(s) == [s EXCEPT !.inv = 0]
(* f forward and i inverse transforms, in any order, on any threads        *)
Work(s, f, i) == IF s.on THEN [s EXCEPT !.fwd = @ + f, !.inv = @ + i] ELSE s
(* the same while others turn counting on or off: any part of them counts  *)
Within(s, f, i, t) == /\ t.fwd \in s.fwd..(s.fwd + f)
                      /\ t.inv \in s.inv..(s.inv + i)
=============================================================================
