------------------------------ MODULE GenCircuit ------------------------------
(* Circuits over four wires: steps <<gate, dest, a, b, c>>.  Wires are reused and overwritten, operands may coincide. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT D
VARIABLES hist, val
W == 0..3
Put(g, d, a, b, c) == hist' = Append(hist, <<g, d, a, b, c>>)
Init == hist = << >> /\ val \in [W -> BOOLEAN]
(* initial values first, as fresh encryptions *)
Fresh == Len(hist) < 4 /\ LET d == Len(hist) IN Put("fresh", d, IF val[d] THEN 1 ELSE 0, 0, 0) /\ UNCHANGED val
Gate == /\ Len(hist) >= 4 /\ Len(hist) < D
        /\ \E g \in {"nand", "and", "or", "nor", "xor", "xnor"}, d, a, b \in W : Put(g, d, a, b, 0)
        /\ UNCHANGED val
Not == Len(hist) >= 4 /\ Len(hist) < D /\ (\E d, a \in W : Put("not", d, a, 0, 0)) /\ UNCHANGED val
Three == /\ Len(hist) >= 4 /\ Len(hist) < D /\ UNCHANGED val
         /\ \E g \in {"majority", "mux"}, d, a, b, c \in W : Put(g, d, a, b, c)
New == Len(hist) >= 4 /\ Len(hist) < D /\ (\E d \in W, v \in 0..1 : Put("fresh", d, v, 0, 0)) /\ UNCHANGED val
Next == Fresh \/ Gate \/ Not \/ Three \/ New
Finish == Len(hist) = D /\ Put("end", 0, 0, 0, 0) /\ UNCHANGED val
GNext == Next \/ Finish
Emit == Len(hist) = D + 1 => PrintT("BEH " \o ToJson(SubSeq(hist, 1, D)))
=============================================================================
