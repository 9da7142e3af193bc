------------------------------- MODULE CacheTrace -------------------------------
(* Recorded requests to the table cache of one field in a fresh process: invocations and returns of  *)
(* concurrent threads.  tab: the table every size has; pend: the request each thread is waiting for. *)
EXTENDS TraceKit, Ring
VARIABLES tab, pend
Init == TkInit /\ tab = << >> /\ pend = << >>
M == Head0.m
Supported(n) == n >= 0 /\ n < 200 /\ BMod(BSub(M, <<1>>), BPow2(n + 1)) = << >>
\* the N-th power of a primitive 2N-th root is minus one
PrimitiveOrder(w, n) == LET RECURSIVE Sq(_, _)
                            Sq(v, k) == IF k = 0 THEN v ELSE Sq(BMod(BMul(v, v), M), k - 1)
                        IN Sq(w, n) = BSub(M, <<1>>)
Inv == /\ Eat("inv") /\ UNCHANGED tab
       /\ E.th \notin DOMAIN pend
       /\ pend' = (E.th :> <<E.kind, E.sizes>>) @@ pend
Drop(t) == [x \in DOMAIN pend \ {t} |-> pend[x]]
Ret == /\ Eat("ret") /\ E.th \in DOMAIN pend
       /\ pend' = Drop(E.th)
       /\ \A r \in {pend[E.th]} :
          LET n == r[2][1] IN
          CASE r[1] = "init" -> /\ E.ok = (IF \A i \in 1..Len(r[2]) : Supported(r[2][i]) THEN 1 ELSE 0)
                                /\ UNCHANGED tab
            [] r[1] = "get" ->
                 IF ~Supported(n) THEN E.ok = 0 /\ UNCHANGED tab
                 ELSE /\ E.ok = 1
                      \* one table per size
                      /\ n \in DOMAIN tab => tab[n] = <<E.id, E.root>>
                      /\ \A k \in DOMAIN tab : k # n => tab[k][1] # E.id
                      /\ tab' = (n :> <<E.id, E.root>>) @@ tab
                      \* fully built: it transforms and inverts
                      /\ E.size = 2^n /\ E.back = E.x /\ E.rest = 1
                      /\ IF n <= 6 THEN E.fwd = PNtt(E.x, E.root, n, M)
                         \* a polynomial of degree one, at the root and at its negation
                         ELSE /\ PrimitiveOrder(E.root, n)
                              /\ \A v \in {BMod(BMul(E.x[2], E.root), M)} :
                                   E.fwd = << BMod(BAdd(E.x[1], v), M), BMod(BAdd(E.x[1], BSub(M, v)), M) >>
            [] r[1] = "poly" -> /\ E.ok = 1 /\ UNCHANGED tab /\ E.back = E.x
                                /\ n \in DOMAIN tab => E.fwd = PNtt(E.x, tab[n][2], n, M)
Sync == Eat("sync") /\ pend = << >> /\ UNCHANGED <<tab, pend>>
Next == Inv \/ Ret \/ Sync \/ (AtEnd /\ UNCHANGED <<tab, pend>>)
=============================================================================
