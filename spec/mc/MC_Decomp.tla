------------------------------- MODULE MC_Decomp -------------------------------
(* Decomposition of one value, digit by digit, for every modulus up to Top, every base of 1 to    *)
(* all bits of the modulus and every value: the announced number of digits is exactly enough,     *)
(* every digit is below the base and the weighted digits add up to the value at every moment.     *)
EXTENDS Arith, Integers, Sequences, TLC
CONSTANT Top
VARIABLES m, bits, x, rest, digits
vars == <<m, bits, x, rest, digits>>
Bits(v) == LET RECURSIVE L(_)
               L(d) == IF d = 0 THEN 0 ELSE 1 + L(d \div 2)
           IN  L(v)
MBits(v) == IF v = Pow2(Bits(v) - 1) THEN Bits(v) - 1 ELSE Bits(v)
DLen == CeilDiv(MBits(m), bits)
Init == /\ m \in 2..Top /\ bits \in 1..MBits(m) /\ x \in 0..(m - 1)
        /\ rest = x /\ digits = << >>
Next == /\ Len(digits) < DLen
        /\ digits' = Append(digits, rest % Pow2(bits)) /\ rest' = rest \div Pow2(bits)
        /\ UNCHANGED <<m, bits, x>>
Spec == Init /\ [][Next]_vars
RECURSIVE Val(_)
Val(d) == IF d = << >> THEN 0 ELSE d[1] + Pow2(bits) * Val(Tail(d))
Below == \A i \in 1..Len(digits) : digits[i] < Pow2(bits)
Exact == Val(digits) + (rest * Pow2(bits * Len(digits))) = x
Enough == Len(digits) = DLen => rest = 0 /\ Val(digits) = x
(* one digit fewer would lose some value *)
NeedAll == m - 1 >= Pow2(bits * (DLen - 1))
=============================================================================
