---------------------------- MODULE ModulusTrace ----------------------------
EXTENDS TraceKit, Modulus, Arith
Init == TkInit
(* every form of one operation on the same operands *)
Call == Eat("call") /\ Len(E.outs) > 0
        /\ \A i \in 1..Len(E.outs) : Good(E.f, E.be, E.w, E.m, E.a, E.b, E.outs[i])
(* an inverse that does not exist is reported, and only then *)
NoInv == Eat("noinv") /\ E.exists = (\E y \in 1..(E.m - 1) : (E.a * y) % E.m = 1)
WideE == Eat("wide") /\ Wide(E.f, E.w, E.a, E.b, E.c, E.lo, E.hi)
Word == Eat("word") /\ Len(E.outs) > 0 /\ \A i \in 1..Len(E.outs) : WordOp(E.f, E.w, E.a, E.b, E.outs[i])
(* 8-bit words: operand a fixed, operand b = from, from+1, ... *)
Row == Eat("row") /\ Len(E.out) = E.n
       /\ \A j \in 1..E.n : Small(E.f, E.m, E.a, E.from + j - 1, E.out[j])
(* moduli the constructor must accept or refuse *)
New == Eat("new") /\ E.ok = (IF E.be = "barrett"
                             THEN BLt(<<1>>, E.m) /\ BLt(E.m, BPow2(E.w - 2))
                             ELSE \E k \in 1..(E.w - 1) : E.m = BPow2(k))
Next == Call \/ NoInv \/ WideE \/ Word \/ Row \/ New \/ AtEnd
=============================================================================
