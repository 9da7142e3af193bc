------------------------------ MODULE TraceKit ------------------------------
(***************************************************************************)
(* Trace validation scaffold.  A trace file is a sequence of JSON events,  *)
(* split into sessions by "begin" events.  Every session is an independent *)
(* behaviour: Init picks one, and each later event must be explained by    *)
(* one action of the specification.  An event nothing explains leaves the  *)
(* session without a successor, which TLC reports as a deadlock; b and l   *)
(* then name the session and the last accepted event.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES b, l            \* line of the session's begin event; last accepted line

Trace  == ndJsonDeserialize(IOEnv.TRACE)
TLen   == Len(Trace)
Begins == {i \in 1..TLen : Trace[i].op = "begin"}

Head0  == Trace[b]                                   \* the session's configuration
More   == l < TLen /\ Trace[l + 1].op # "begin"
E      == Trace[l + 1]                               \* the event to explain
Has(f) == f \in DOMAIN E

TkInit   == b \in Begins /\ l = b
Eat(op)  == /\ More
            /\ E.op = op
            /\ l' = l + 1
            /\ b' = b
AtEnd    == ~More /\ UNCHANGED <<b, l>>
=============================================================================
