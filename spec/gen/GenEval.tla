-------------------------------- MODULE GenEval --------------------------------
(* Histories of concurrent evaluations.  A round is a set of calls, at most one per thread, with    *)
(* distinct destinations, that run at the same time; "sync" ends it.  Between rounds the evaluator  *)
(* may be replaced by a copy, the pool resized, a fixed call repeated.                              *)
(* Steps <<kind, thread, gate, dest, a, b, c>>.                                                     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT D
VARIABLES hist, busy, dests
W == 0..5
Put(k, th, g, d, a, b, c) == hist' = Append(hist, <<k, th, g, d, a, b, c>>)
Init == hist = << >> /\ busy = {} /\ dests = {}
Room == Len(hist) < D
Two == {"nand", "and", "or", "nor", "xor", "xnor"}
Call(gs) == /\ Room
            /\ \E th \in (0..3) \ busy, d \in W \ dests, g \in gs, a, b, c \in W :
                 /\ Put("call", th, g, d, a, b, c) /\ busy' = busy \cup {th} /\ dests' = dests \cup {d}
Call2 == Call(Two)
Call3 == Call({"mux", "majority"})
CallM == Call({"mux"})
Call1 == Call({"not"})
(* every thread makes the same call *)
Same == /\ Room /\ busy = {} /\ \E g \in Two \cup {"mux", "majority"}, d, a, b, c \in W :
             Put("all", 0, g, d, a, b, c) /\ UNCHANGED <<busy, dests>>
Sync == Room /\ busy # {} /\ Put("sync", 0, "", 0, 0, 0, 0) /\ busy' = {} /\ dests' = {}
Clone == Room /\ busy = {} /\ Put("clone", 0, "", 0, 0, 0, 0) /\ UNCHANGED <<busy, dests>>
Pool == Room /\ busy = {} /\ (\E k \in {1, 2, 3, 8} : Put("pool", k, "", 0, 0, 0, 0)) /\ UNCHANGED <<busy, dests>>
Probe == Room /\ busy = {} /\ Put("probe", 0, "", 0, 0, 0, 0) /\ UNCHANGED <<busy, dests>>
New == Room /\ busy = {} /\ (\E d \in W, v \in 0..1 : Put("fresh", 0, "", d, v, 0, 0)) /\ UNCHANGED <<busy, dests>>
Next == Call1 \/ Call2 \/ Call3 \/ CallM \/ Same \/ Sync \/ Clone \/ Pool \/ Probe \/ New
Finish == Len(hist) = D /\ Put("sync", 0, "", 0, 0, 0, 0) /\ UNCHANGED <<busy, dests>>
GNext == Next \/ Finish
Emit == Len(hist) = D + 1 => PrintT("BEH " \o ToJson(hist))
=============================================================================
