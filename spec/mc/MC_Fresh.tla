------------------------------ MODULE MC_Fresh ------------------------------
(***************************************************************************)
(* Generating a key as a walk over a tape of random cells.  A key is R     *)
(* rows of NA mask cells and NE error cells; others may draw from the same *)
(* tape in between.  Every row takes new cells, so rows never share one    *)
(* and, over Z_q with a uniform error, the map from tapes to keys is a     *)
(* bijection whatever the secret and the messages: the key is uniform and  *)
(* says nothing about them.  With Reuse, rows of message zero may keep the *)
(* mask of the row before; the invariants then fail.                       *)
(***************************************************************************)
EXTENDS Fresh, Integers, Sequences, FiniteSets, TLC
CONSTANTS Q, NA, R, Reuse, Gap
VARIABLES s, msg, rows, pos
vars == <<s, msg, rows, pos>>
NE == 1
Vecs(n) == [1..n -> 0..(Q - 1)]
Init == s \in Vecs(NA) /\ msg \in Vecs(R) /\ rows = << >> /\ pos = 0
Cells(from, n) == [i \in 1..n |-> from + i]
Fresh_ == /\ Len(rows) < R
          /\ rows' = Append(rows, [a |-> Cells(pos, NA), e |-> pos + NA + 1])
          /\ pos' = pos + NA + NE
          /\ UNCHANGED <<s, msg>>
Keep == /\ Reuse /\ Len(rows) \in 1..(R - 1) /\ msg[Len(rows) + 1] = 0
        /\ rows' = Append(rows, [a |-> rows[Len(rows)].a, e |-> pos + 1])
        /\ pos' = pos + 1
        /\ UNCHANGED <<s, msg>>
Other == /\ pos < Gap + Len(rows) * (NA + NE) /\ Len(rows) < R
         /\ pos' = pos + 1 /\ UNCHANGED <<s, msg, rows>>
Next == Fresh_ \/ Keep \/ Other
Spec == Init /\ [][Next]_vars

RowCells(r) == {r.a[i] : i \in 1..NA} \cup {r.e}
NoReuse == \A i, j \in 1..Len(rows) : i # j => RowCells(rows[i]) \cap RowCells(rows[j]) = {}
Full == \A i \in 1..Len(rows) : Cardinality(RowCells(rows[i])) = NA + NE

RECURSIVE Dot(_, _, _)
Dot(a, t, i) == IF i = 0 THEN 0 ELSE (Dot(a, t, i - 1) + t[a[i]] * s[i]) % Q
Used == UNION {RowCells(rows[i]) : i \in 1..Len(rows)}
Key(t) == [i \in 1..R |-> << [j \in 1..NA |-> t[rows[i].a[j]]], (Dot(rows[i].a, t, NA) + t[rows[i].e] + msg[i]) % Q >>]
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
Uniform == Len(rows) = R => Cardinality({Key(t) : t \in [Used -> 0..(Q - 1)]}) = Pow(Q, R * (NA + NE))
(* the Java forms *)
ExtremesSelf == \A m \in {0, 5} : \A X \in {[i \in 1..7 |-> [p \in 1..4 |-> (i * p * p + i) % 5]], [i \in 1..3 |-> [p \in 1..2 |-> IF i = 2 THEN p - 1 ELSE i]]} :
                   \A L \in {2, Len(X[1])} : Extremes(X, Len(X), L, m) = ExtremesP(X, Len(X), L, m)
TallySelf == \A x \in {<<1, 2, 2, 3, 0, 9>>, << >>, [i \in 1..20 |-> (i * i) % 5]} : Tally(x, 4) = TallyP(x, 4)
=============================================================================
