----------------------------- MODULE FreshTrace -----------------------------
(* Rows of repeatedly drawn encryptions and keys, recorded from the code. *)
EXTENDS TraceKit, Fresh, Sampling, Arith, FiniteSets
Init == TkInit
H == Head0
LagSet(u) == {u * H.lags[i] : i \in 1..Len(H.lags)} \ {0}
Uni == [kind |-> "uniform", m |-> H.m]

(* the same source of randomness gives the same object, another one other masks *)
Source == Eat("source") /\ E.equal /\ E.differs

(* R rows per draw, n coefficients per mask, ne errors per row *)
RowsOk(e, K, R, n, ne) ==
    \A X \in {TLCEval([i \in 1..K |-> Flat([k \in 1..R |-> e[i][k][1]], n)])} :
    \A Y \in {TLCEval([i \in 1..K |-> Flat([k \in 1..R |-> RowErr(e[i][k], H.msgs[k], H.s, H.m, H.ring)], ne)])} :
        /\ SupOk(X, K, R * n, Uni)
        /\ SupOk(Y, K, R * ne, H.d)
        \* no two rows anywhere share a mask
        /\ Cardinality({e[i][k][1] : i \in 1..K, k \in 1..R}) = K * R
        /\ HistOk(Y, K, R * ne, H.d)
        /\ PairsOk(X, K, R * n, Uni) /\ PairsOk(Y, K, R * ne, H.d)
        /\ \A A \in {TLCEval([i \in 1..K |-> Cats(X[i], Uni)])} : \A B \in {TLCEval([i \in 1..K |-> Cats(Y[i], H.d)])} :
              /\ VecOk(A, K, R * n, Uni, {1} \cup LagSet(n))
              /\ VecOk(B, K, R * ne, H.d, {1} \cup LagSet(ne))
              /\ CrossOk(A, B, K, R * n, [p \in 1..(R * n) |-> IF ne = n THEN p ELSE ((p - 1) \div n) + 1], Uni, H.d)
Rows == /\ Eat("rows")
        \* the rows of a key are seen through its operations, in one of several ways
        /\ \E w \in 1..Len(E.e) : RowsOk(E.e[w], Len(E.e[w]), Len(H.msgs), H.n, IF H.ring THEN H.n ELSE 1)

\* the same position of rows at the given distances
LagsOk(V, K, L, d) ==
    \A c \in {CatNums(d)} : \A cc \in {CellsOf(c, c)} : \A qq \in {BMul(CatDen(d), CatDen(d))} :
    \A g \in {x \in LagSet(1) : x < K \div 2} : \A p \in 1..L : JointOk(V, V, K, p, p, g, Len(c), Len(c), cc, qq)
(* An object of very many rows, drawn a few times: every row counts as a draw of one row.  Consecutive
   rows, and rows at the given distances, are then pairs of draws. *)
ManyOk(e, K, R, n, ne) ==
    \A X \in {TLCEval([p \in 1..(K * R) |-> e[((p - 1) \div R) + 1][((p - 1) % R) + 1][1]])} :
    \A Y \in {TLCEval([p \in 1..(K * R) |-> RowErr(e[((p - 1) \div R) + 1][((p - 1) % R) + 1], H.msgs[((p - 1) % R) + 1], H.s, H.m, H.ring)])} :
        /\ SupOk(X, K * R, n, Uni)
        /\ SupOk(Y, K * R, ne, H.d)
        /\ Cardinality({X[p] : p \in 1..(K * R)}) = K * R
        \* no two rows anywhere share their errors (two draws agree in one place with a probability below a quarter)
        /\ ne >= 32 => Cardinality({Y[p] : p \in 1..(K * R)}) = K * R
        /\ HistOk(Y, K * R, ne, H.d)
        /\ PairsOk(X, K * R, n, Uni) /\ PairsOk(Y, K * R, ne, H.d)
        /\ \A A \in {TLCEval([i \in 1..(K * R) |-> Cats(X[i], Uni)])} : \A B \in {TLCEval([i \in 1..(K * R) |-> Cats(Y[i], H.d)])} :
              /\ VecOk(A, K * R, n, Uni, {1})
              /\ VecOk(B, K * R, ne, H.d, {1} \cap 1..(ne - 1))
              /\ LagsOk(A, K * R, n, Uni) /\ LagsOk(B, K * R, ne, H.d)
              /\ CrossOk(A, B, K * R, n, [p \in 1..n |-> IF ne = n THEN p ELSE 1], Uni, H.d)
Many == /\ Eat("many")
        /\ \E w \in 1..Len(E.e) : ManyOk(E.e[w], Len(E.e[w]), Len(H.msgs), H.n, IF H.ring THEN H.n ELSE 1)

(* vectors of independent values *)
Val(x) == IF H.d.kind = "uniform" THEN x ELSE Centered(x, H.m)
VectorsOk(v, K, L) ==
    \A X \in {TLCEval([i \in 1..K |-> [p \in 1..L |-> Val(v[i][p])]])} :
        /\ SupOk(X, K, L, H.d)
        /\ PairsOk(X, K, L, H.d)
        /\ H.d.kind # "uniform" => HistOk(X, K, L, H.d)
        /\ \A A \in {TLCEval([i \in 1..K |-> Cats(X[i], H.d)])} : VecOk(A, K, L, H.d, {g \in LagSet(1) : g < L})
Vectors == /\ Eat("vectors")
           /\ \A i \in 1..Len(E.v) : Len(E.v[i]) = Len(E.v[1])
           /\ VectorsOk(E.v, Len(E.v), Len(E.v[1]))
Next == Source \/ Rows \/ Many \/ Vectors \/ AtEnd
=============================================================================
