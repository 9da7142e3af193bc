------------------------------- MODULE Fresh -------------------------------
(***************************************************************************)
(* Fresh randomness.  An encrypted object is a sequence of rows <<a, b>>;  *)
(* each row has its own mask a, uniform over the whole ring, and its own   *)
(* error b - a s - message with the declared distribution.  Everything is  *)
(* judged on K draws of the object: supports exactly, and frequencies of   *)
(* every position and of pairs of positions within eight standard          *)
(* deviations (Sampling!Near).                                             *)
(* Moduli are below 2^29.                                                  *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC
LOCAL INSTANCE Arith
LOCAL INSTANCE Sampling

(* how often each of 1..n occurs in the sequence                           *)
TallyP(x, n) == [c \in 1..n |-> Cardinality({i \in 1..Len(x) : x[i] = c})]
Tally(x, n)  == TallyP(x, n)                                \* overridden

(* the errors of one row, centred                                          *)
RowErr(row, msg, s, m, ring) ==
    IF ring THEN LET d == VSub(VSub(row[2], NegMul(row[1], s, m), m), msg, m)
                 IN  [i \in 1..Len(d) |-> Centered(d[i], m)]
    ELSE << Centered(SubMod(SubMod(row[2][1], DotMod(row[1], s, m), m), msg[1], m), m) >>

(* rows of one draw, flattened: item p of the draw is x[(p-1) \div n + 1][(p-1) % n + 1] *)
Flat(x, n) == TLCEval([p \in 1..(Len(x) * n) |-> x[((p - 1) \div n) + 1][((p - 1) % n) + 1]])

(* V: K vectors of categories 1..nc with probabilities c[.] / q.           *)
TallyOk(t, K, p, q) == \A j \in 1..Len(t) : Near(t[j], K, p[j], q)
PosOk(V, K, L, c, q) == \A p \in 1..L : \A t \in {Tally([i \in 1..K |-> V[i][p]], Len(c))} : TallyOk(t, K, c, q)
JointOk(V, W, K, p1, p2, sh, n1, n2, cc, qq) ==
    \A t \in {Tally([i \in 1..(K - sh) |-> (V[i][p1] - 1) * n2 + W[i + sh][p2]], n1 * n2)} : TallyOk(t, K - sh, cc, qq)
CellsOf(c, e) == TLCEval([j \in 1..(Len(c) * Len(e)) |-> BMul(c[((j - 1) \div Len(e)) + 1], e[((j - 1) % Len(e)) + 1])])
(* positions, positions at the given distances, and the same position of consecutive draws *)
VecOk(V, K, L, d, lags) ==
    \A c \in {CatNums(d)} : \A q \in {CatDen(d)} : \A cc \in {CellsOf(c, c)} : \A qq \in {BMul(q, q)} :
        /\ PosOk(V, K, L, c, q)
        /\ \A g \in lags : \A p \in 1..(L - g) : JointOk(V, V, K, p, p + g, 0, Len(c), Len(c), cc, qq)
        /\ \A p \in 1..L : JointOk(V, V, K, p, p, 1, Len(c), Len(c), cc, qq)
(* masks against errors of the same row: item p of the one, item f[p] of the other *)
CrossOk(V, W, K, L, f, d1, d2) ==
    \A c \in {CatNums(d1)} : \A e \in {CatNums(d2)} : \A cc \in {CellsOf(c, e)} : \A qq \in {BMul(CatDen(d1), CatDen(d2))} :
        \A p \in 1..L : JointOk(V, W, K, p, f[p], 0, Len(c), Len(e), cc, qq)
(* The largest and smallest number of draws in which two positions hold    *)
(* equal values, and values that cancel modulo m (m = 0: as integers).     *)
CountEq(X, K, p1, p2) == Cardinality({i \in 1..K : X[i][p1] = X[i][p2]})
CountNeg(X, K, p1, p2, m) == Cardinality({i \in 1..K : IF m = 0 THEN X[i][p1] + X[i][p2] = 0 ELSE (X[i][p1] + X[i][p2]) % m = 0})
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
ExtremesP(X, K, L, m) ==
    LET prs == {pr \in (1..L) \X (1..L) : pr[1] < pr[2]}
        eq  == {CountEq(X, K, pr[1], pr[2]) : pr \in prs}
        ng  == {CountNeg(X, K, pr[1], pr[2], m) : pr \in prs}
    IN  << MaxOf(eq), MinOf(eq), MaxOf(ng), MinOf(ng) >>
Extremes(X, K, L, m) == ExtremesP(X, K, L, m)               \* overridden
(* the probability that two independent values are equal: they cancel as often, but for binary ones *)
RECURSIVE SumSq(_, _)
SumSq(S, f) == IF S = {} THEN << >> ELSE LET k == CHOOSE x \in S : TRUE IN BAdd(BMul(f[k], f[k]), SumSq(S \ {k}, f))
(* no position repeats, negates or avoids another one anywhere             *)
PairsOk(X, K, L, d) ==
    L < 2 \/ \A t \in {Extremes(X, K, L, IF d.kind = "uniform" THEN d.m ELSE 0)} :
             \A p \in {IF d.kind = "uniform" THEN <<1>> ELSE CHOOSE v \in {SumSq(DOMAIN f, f) : f \in {ProbFun(d)}} : TRUE} :
             \A q \in {IF d.kind = "uniform" THEN BFromInt(d.m) ELSE BMul(ProbDen(d), ProbDen(d))} :
                /\ Near(t[1], K, p, q) /\ Near(t[2], K, p, q)
                /\ IF d.kind = "binary" THEN Near(t[3], K, <<1>>, <<4>>) /\ Near(t[4], K, <<1>>, <<4>>)
                   ELSE Near(t[3], K, p, q) /\ Near(t[4], K, p, q)
Cats(x, d) == TLCEval([p \in 1..Len(x) |-> CatOf(x[p], d)])
(* the histogram of all the values                                         *)
HistOk(X, K, L, d) ==
    \A f \in {ProbFun(d)} : \A q \in {ProbDen(d)} :
        LET lo == CHOOSE x \in DOMAIN f : \A y \in DOMAIN f : x <= y IN
        \A n \in {Cardinality(DOMAIN f)} :
        \A t \in {Tally([i \in 1..(K * L) |-> X[((i - 1) \div L) + 1][((i - 1) % L) + 1] - lo + 1], n)} :
            TallyOk(t, K * L, [j \in 1..n |-> f[lo + j - 1]], q)
SupOk(X, K, L, d) == \A i \in 1..K : \A p \in 1..L : InSupport(X[i][p], d)
=============================================================================
