------------------------------- MODULE MC_Derive -------------------------------
(* The macro as a pipeline, over words of a few bits.  Every derive of a definition parses it on its *)
(* own: shape, field, attribute, literal into the word type; the field derive also counts leading    *)
(* zeros, and the constant of the reduction is evaluated last.  Whatever the order of the derives,   *)
(* a definition compiles exactly when Derive.Accepts says so.  Tables of an accepted prime field     *)
(* exist exactly for the sizes HasTable says, and the search of a root finds one.                     *)
EXTENDS Derive, Integers, Sequences, FiniteSets, TLC
CONSTANTS WordBits
VARIABLES def, todo, stage, out
vars == <<def, todo, stage, out>>
Derives == {"Field", "Prime", "NTT"}
Shapes == {"tuple1", "tuple2", "named"}
Attrs == {"int", "missing", "string"}
Lits == 0..(Pow2(CHOOSE w \in WordBits : \A v \in WordBits : v <= w) + 2)
Init == /\ def \in [shape : Shapes, w : WordBits \cup {0}, attr : Attrs, lit : Lits]
        /\ todo = Derives /\ stage = [d \in Derives |-> "shape"] /\ out = "expanding"
Fail(d) == stage' = [stage EXCEPT ![d] = "refused"] /\ todo' = todo \ {d} /\ UNCHANGED <<def, out>>
Go(d, s) == stage' = [stage EXCEPT ![d] = s] /\ UNCHANGED <<def, todo, out>>
Lead(x, w) == Cardinality({i \in 0..(w - 1) : x < Pow2(i)})               \* leading zeros of a w-bit word
Shape(d) == stage[d] = "shape" /\ IF def.shape = "tuple1" THEN Go(d, "attr") ELSE Fail(d)
Attr(d) == stage[d] = "attr" /\ IF def.attr = "int" THEN Go(d, "parse") ELSE Fail(d)
Parse(d) == stage[d] = "parse" /\ IF def.w # 0 /\ def.lit < Pow2(def.w) THEN Go(d, "parsed") ELSE Fail(d)
Done(d) == /\ stage[d] = "parsed"
           /\ IF d = "Field" /\ Lead(def.lit, def.w) < Spare THEN Fail(d)
              ELSE stage' = [stage EXCEPT ![d] = "expanded"] /\ todo' = todo \ {d} /\ UNCHANGED <<def, out>>
(* after expansion: constants *)
Const == /\ out = "expanding" /\ todo = {}
         /\ out' = IF (\E d \in Derives : stage[d] = "refused") \/ def.lit \in {0, 1} THEN "refused" ELSE "accepted"
         /\ UNCHANGED <<def, todo, stage>>
Next == Const \/ \E d \in todo : Shape(d) \/ Attr(d) \/ Parse(d) \/ Done(d)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Exact == out # "expanding" => (out = "accepted") = AcceptW(def.shape, def.w, def.attr, BFromInt(def.lit))
(* the field derive alone keeps words out that would overflow: sums of two lazily reduced values fit *)
Fits == out = "accepted" => 4 * def.lit <= Pow2(def.w) /\ (2 * def.lit - 1) + (2 * def.lit - 1) < Pow2(def.w)
Order(x, m) == CHOOSE k \in 1..m : PowMod(x, k, m) = 1 % m /\ \A j \in 1..(k - 1) : PowMod(x, j, m) # 1
Roots == out = "accepted" /\ IsPrimeInt(def.lit) =>
           \A k \in 1..(def.w - 2) :
              HasTable(BFromInt(def.lit), def.w, k) <=> \E x \in 1..(def.lit - 1) : Order(x, def.lit) = Pow2(k + 1)
Ends == <>(out # "expanding")
===============================================================================
