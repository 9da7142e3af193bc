------------------------------ MODULE MC_Field ------------------------------
(* The field the operators are measured against: for every prime up to 31 the residues with the   *)
(* operations used by FieldTrace satisfy the field laws, inverses and quotients are unique,       *)
(* Fermat exponents invert, and a register program over them (accumulate, lazily accumulate,      *)
(* normalise) agrees with the same program over the integers.                                     *)
EXTENDS Arith, Integers, FiniteSets, TLC
CONSTANT Primes, Steps
VARIABLES p, x, lazy, int, n
vars == <<p, x, lazy, int, n>>
Init == p \in Primes /\ x = 0 /\ lazy = 0 /\ int = 0 /\ n = 0
El == 0..(p - 1)
(* a lazily reduced accumulator: any congruent value below 2p may be returned *)
LazyVals(v) == {y \in 0..(2 * p - 1) : y % p = v % p}
Fma == n < Steps /\ \E a, b \in El :
          /\ x' = AddMod(x, MulMod(a, b, p), p)
          /\ lazy' \in LazyVals(lazy + a * b)
          /\ int' = (int + a * b) % (p * p * 4)
          /\ n' = n + 1 /\ p' = p
Next == Fma
Spec == Init /\ [][Next]_vars
Agree == x \in El /\ lazy < 2 * p /\ lazy % p = x
Laws == n = 0 =>
    /\ \A a, b \in El :
        /\ AddMod(a, b, p) = AddMod(b, a, p) /\ MulMod(a, b, p) = MulMod(b, a, p)
        /\ SubMod(AddMod(a, b, p), b, p) = a
        /\ AddMod(a, NegMod(a, p), p) = 0
        /\ b # 0 => Cardinality({q \in El : MulMod(q, b, p) = a}) = 1
        /\ b # 0 => MulMod(b, PowMod(b, p - 2, p), p) = 1 % p
    /\ \A a, b, c \in El :
        /\ AddMod(AddMod(a, b, p), c, p) = AddMod(a, AddMod(b, c, p), p)
        /\ MulMod(MulMod(a, b, p), c, p) = MulMod(a, MulMod(b, c, p), p)
        /\ MulMod(a, AddMod(b, c, p), p) = AddMod(MulMod(a, b, p), MulMod(a, c, p), p)
IntAgree == int % p = x
=============================================================================
