------------------------------- MODULE GenPrg -------------------------------
(* Call sequences for the generator, drawn from the abstract specification. *)
(* Sizes are biased to the places where the real 32-word buffer ends.       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT D
P == INSTANCE Prg
VARIABLES pos, hist
BW == 32
Left == BW - (pos % BW)
Sizes == {0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 33, 64, 127, 128, 129, 255, 256, 257, 300, 1023, 1025, 2000}
           \cup {4 * Left, 4 * Left - 1, 4 * Left + 1, 4 * Left - 4, 4 * Left + 4, 4 * Left - 3, 4 * Left + 127, 4 * Left + 128}
Ops == {<<o, 1>> : o \in {"u32", "u64", "block", "bool", "byte"}}
       \cup {<<o, n>> : o \in {"fill", "tryfill", "bytes"}, n \in {x \in Sizes : x >= 0}}
       \cup {<<"blocks", n>> : n \in {0, 1, 2, 7, 8, 9, 17, 64, 65, 130}}
       \cup {<<"bools", n>> : n \in {0, 1, Left, Left + 1, 40, 260}}
       \cup {<<"clone", 0>>}
Kinds == {"u32", "u64", "block", "bool", "byte", "fill", "tryfill", "bytes", "blocks", "bools", "clone"}
Init == pos = 0 /\ hist = << >>
Next == /\ Len(hist) < D
        /\ \E k \in Kinds : \E o \in {x \in Ops : x[1] = k} :
            /\ pos' = pos + (IF o[1] = "clone" THEN 0 ELSE P!Words(o[1], o[2]))
            /\ hist' = Append(hist, o)
Finish == Len(hist) = D /\ hist' = Append(hist, <<"end", 0>>) /\ UNCHANGED pos
GNext == Next \/ Finish
Emit == Len(hist) = D + 1 => PrintT("BEH " \o ToJson(SubSeq(hist, 1, D)))
=============================================================================
