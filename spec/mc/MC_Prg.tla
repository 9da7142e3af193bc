------------------------------- MODULE MC_Prg -------------------------------
(***************************************************************************)
(* The implementation design of the generator - a counter, a buffer of     *)
(* BufBlocks blocks refilled as a whole, and an index into its words -     *)
(* refines the abstract stream cursor of Prg.tla, for every sequence of    *)
(* calls.  Blocks are symbolic: byte i of block j is <<j, i>>.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS BufBlocks, MaxWord, MaxFill
P == INSTANCE Prg
VARIABLES counter, buf, idx,      \* concrete: next counter, buffered blocks, next word in buffer
          pos, ok                 \* abstract cursor; last result equals the abstract result
vars == <<counter, buf, idx, pos, ok>>
BW == 4 * BufBlocks
Cipher(j) == [i \in 1..16 |-> <<j, i>>]
WordAt(b, i) == LET bl == b[(i \div 4) + 1] IN [t \in 1..4 |-> bl[4 * (i % 4) + t]]

(* concrete state as a record so that calls can be composed *)
S == [c |-> counter, b |-> buf, i |-> idx]
Refill(s) == [c |-> s.c + BufBlocks, b |-> [j \in 1..BufBlocks |-> Cipher(s.c + j - 1)], i |-> 0]
Ready(s) == IF s.i >= BW THEN Refill(s) ELSE s
Next1(s) == LET r == Ready(s) IN [out |-> WordAt(r.b, r.i), s |-> [r EXCEPT !.i = @ + 1]]
(* next_u64 has a case of its own for a value that straddles two buffers *)
Next2(s) ==
    IF s.i < BW - 1
    THEN [out |-> WordAt(s.b, s.i) \o WordAt(s.b, s.i + 1), s |-> [s EXCEPT !.i = @ + 2]]
    ELSE IF s.i >= BW
    THEN LET r == Refill(s) IN [out |-> WordAt(r.b, 0) \o WordAt(r.b, 1), s |-> [r EXCEPT !.i = 2]]
    ELSE LET x == WordAt(s.b, BW - 1) r == Refill(s)
         IN [out |-> x \o WordAt(r.b, 0), s |-> [r EXCEPT !.i = 1]]
(* fill: copy what the buffer still holds, refill, repeat; a partial word is dropped *)
RECURSIVE Fill(_, _)
Fill(s, n) ==
    IF n = 0 THEN [out |-> << >>, s |-> s]
    ELSE LET r  == Ready(s)
             av == 4 * (BW - r.i)
             k  == IF n < av THEN n ELSE av
             by == [t \in 1..k |-> WordAt(r.b, r.i + (t - 1) \div 4)[((t - 1) % 4) + 1]]
             q  == Fill([r EXCEPT !.i = @ + (k + 3) \div 4], n - k)
         IN [out |-> by \o q.out, s |-> q.s]

Do(op, n, res) ==
    /\ pos + P!Words(op, n) <= MaxWord
    /\ counter' = res.s.c /\ buf' = res.s.b /\ idx' = res.s.i
    /\ pos' = pos + P!Words(op, n)
    /\ ok' = (res.out = P!Result(Cipher, pos, op, n))
Init == counter = 0 /\ buf = << >> /\ idx = BW /\ pos = 0 /\ ok = TRUE
Next == \/ Do("u32", 1, Next1(S))
        \/ Do("u64", 1, Next2(S))
        \/ \E n \in 0..MaxFill : Do("fill", n, Fill(S, n))
        \/ Do("block", 1, LET x == Next2(S) y == Next2(x.s) IN [out |-> x.out \o y.out, s |-> y.s])
Spec == Init /\ [][Next]_vars
ResultsAreStream == ok
(* the refinement mapping: where the concrete state is in the stream *)
CursorAgrees == pos = 4 * counter - BW + idx
=============================================================================
