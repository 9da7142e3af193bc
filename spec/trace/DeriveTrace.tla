----------------------------- MODULE DeriveTrace -----------------------------
(* Field definitions given to the compiler, and what the accepted ones are.                          *)
(* A session per definition: "verdict" (did the compiler accept it), then "facts" and "tables" of an *)
(* accepted one; sessions of FieldTrace follow for the accepted prime fields.                        *)
EXTENDS FieldTrace, Derive
Verdict == Eat("verdict") /\ E.accepted = Accepts(Head0.shape, Head0.ty, Head0.attr, Head0.lit)
Facts == /\ Eat("facts")
         /\ Accepts(Head0.shape, Head0.ty, Head0.attr, Head0.lit)
         /\ E.m = Head0.lit /\ E.bm = Head0.lit /\ E.w = Width(Head0.ty)
         /\ \A x \in {BSub(Head0.lit, One)} : E.max = x /\ E.neg = x /\ E.tmax = x
         /\ E.prime = (IF BIsPrime(Head0.lit) THEN 40 ELSE 0)       \* asked 40 times
(* tables of a prime field, for 1, 2, 4, ... points; conversions of machine integers *)
Tables == /\ Eat("tables") /\ BIsPrime(Head0.lit)
          /\ \A k \in 1..Len(E.ok) : E.ok[k] = HasTable(Head0.lit, Width(Head0.ty), k - 1)
Conv == Eat("conv") /\ E.out = BMod(E.x, Head0.lit)
DNext == Next \/ Verdict \/ Facts \/ Tables \/ Conv
==============================================================================
