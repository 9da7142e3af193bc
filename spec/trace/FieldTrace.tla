----------------------------- MODULE FieldTrace -----------------------------
(* Recorded operations of derived prime fields.  m: the prime, w: storage width. *)
EXTENDS TraceKit, Modulus, Arith
M == Head0.m
W == Head0.w
Init == TkInit
Canon(x, y) == x = BMod(y, M)

GoodF(f, a, bb, c, x) ==
    CASE f = "add"     -> Canon(x, BAdd(a, bb))
      [] f = "sub"     -> x = BSubMod(a, bb, M)
      [] f = "mul"     -> Canon(x, BMul(a, bb))
      [] f = "neg"     -> x = BSubMod(<< >>, a, M)
      [] f = "div"     -> BLt(x, M) /\ Congr(BMul(x, bb), a, M)
      [] f = "inv"     -> BLt(x, M) /\ Congr(BMul(x, a), One, M)
      [] f = "fma"     -> Canon(x, BAdd(c, BMul(a, bb)))
      [] f = "fmalazy" -> IsLazy(x, BAdd(c, BMul(a, bb)), M)
      [] f = "mullazy" -> IsLazy(x, BMul(a, bb), M)
      [] f = "pow"     -> x = BPowMod(a, bb, M)
      [] f = "new"     -> Canon(x, a)
Call == Eat("call") /\ Len(E.outs) > 0 /\ \A i \in 1..Len(E.outs) : GoodF(E.f, E.a, E.b, E.c, E.outs[i])

Const == LET neg == BSub(M, One) IN
         /\ Eat("const")
         /\ E.zero = << >> /\ E.zero2 = << >> /\ E.def = << >>
         /\ E.one = One /\ E.one2 = One
         /\ E.neg = neg /\ E.neg2 = neg
         /\ E.set = << << >>, One, neg >>

Rel == LET k == BCmp(E.a, E.b) IN
       /\ Eat("rel")
       /\ E.eq = (k = 0) /\ E.ne = (k # 0) /\ E.lt = (k < 0) /\ E.le = (k <= 0) /\ E.gt = (k > 0) /\ E.ge = (k >= 0)
       /\ E.cmp = k /\ E.pcmp = k
       /\ E.max = (IF k < 0 THEN E.b ELSE E.a) /\ E.min = (IF k > 0 THEN E.b ELSE E.a)
       /\ E.hash = (k = 0)
       /\ E.isz = (E.a = << >>) /\ E.iso = (E.a = One) /\ E.isn = (E.a = BSub(M, One))

RECURSIVE Dec(_, _)
Dec(d, k) == IF k = 0 THEN << >> ELSE BAdd(BMul(Dec(d, k - 1), <<10>>), BFromInt(d[k]))
Decimal(d, x) == d # << >> /\ (d[1] = 0 => Len(d) = 1) /\ (\A i \in 1..Len(d) : d[i] \in 0..9) /\ Dec(d, Len(d)) = x
Ser == /\ Eat("ser")
       /\ Len(E.bytes) = W \div 8
       /\ BDigits([i \in 1..Len(E.bytes) |-> BFromInt(E.bytes[i])], 8) = E.a
       /\ Decimal(E.digits, E.a) /\ Decimal(E.disp, E.a)
       /\ E.back = <<E.a, E.a>>

(* every element of a small field *)
SmallF(f, m, a, bb, c, x) ==
    CASE f = "div"     -> x < m /\ (x * bb) % m = a
      [] f = "inv"     -> x < m /\ (x * bb) % m = 1
      [] f = "fma"     -> x = (c + a * bb) % m
      [] f = "fmalazy" -> x < 2 * m /\ x % m = (c + a * bb) % m
      [] f = "pow"     -> x = PowMod(a, bb, m)
      [] f = "new"     -> x = bb % m
      [] OTHER         -> Small(f, m, a, bb, x)
Row == Eat("row") /\ Len(E.out) = E.n
       /\ \A j \in 1..E.n : SmallF(E.f, E.m, E.a, E.from + j - 1, E.c, E.out[j])
Next == Call \/ Const \/ Rel \/ Ser \/ Row \/ AtEnd
=============================================================================
