------------------------------ MODULE Modulus ------------------------------
(***************************************************************************)
(* What every modular backend and every wide integer operation computes.   *)
(* Values are big naturals (Arith.tla) so that the same definitions cover  *)
(* 8- to 64-bit words.                                                     *)
(*                                                                         *)
(* A backend fixes a modulus m and a representation of residues:           *)
(*   "plain", "barrett", "pow2", "shoup", "wrap" : the residue itself      *)
(*   "bb"   (Baby Bear, Montgomery form): x stands for x * R^-1, R = 2^32  *)
(*   "gold" (Goldilocks): any 64-bit word standing for its residue         *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE Arith

One == <<1>>
BBP   == BAdd(BMul(BFromInt(15), BPow2(27)), One)              \* 15 * 2^27 + 1
GoldP == BAdd(BSub(BPow2(64), BPow2(32)), One)                 \* 2^64 - 2^32 + 1

Congr(x, y, m) == BMod(x, m) = BMod(y, m)
(* x is the representation the backend must return for residue class of y  *)
Is(be, x, y, m, w) ==
    IF be = "gold" THEN BLt(x, BPow2(w)) /\ Congr(x, y, m)
    ELSE x = BMod(y, m)
(* The lazy forms may add one modulus.                                     *)
IsLazy(x, y, m) == Congr(x, y, m) /\ BLt(x, BAdd(m, m))

(* Sum of products of two sequences of naturals.                           *)
RECURSIVE BDotFrom(_, _, _)
BDotFrom(u, v, k) == IF k = 0 THEN << >> ELSE BAddP(BDotFrom(u, v, k - 1), BMul(u[k], v[k]))
BDot(u, v) == BDotFrom(u, v, Len(u))                           \* overridden

(* Value of a little-endian digit sequence in base 2^w.                    *)
RECURSIVE BDigitsFrom(_, _, _)
BDigitsFrom(d, w, k) == IF k > Len(d) THEN << >>
                        ELSE BAdd(d[k], BMul(BPow2(w), BDigitsFrom(d, w, k + 1)))
BDigits(d, w) == BDigitsFrom(d, w, 1)                          \* overridden

R32(k) == BPow2(32 * k)

(* f: operation, be: backend, w: word bits, m: modulus, a, b: operands, x: one result *)
Good(f, be, w, m, a, b, x) ==
  IF be = "bb" THEN
    (* Montgomery representation *)
    /\ BLt(x, m)
    /\ CASE f = "add"  -> Congr(x, BAdd(a, b), m)
         [] f = "sub"  -> Congr(BAdd(x, b), a, m)
         [] f = "neg"  -> Congr(BAdd(x, a), << >>, m)
         [] f = "mul"  -> Congr(BMul(x, R32(1)), BMul(a, b), m)
         [] f = "inv"  -> Congr(BMul(x, a), R32(2), m)
         [] f = "div"  -> Congr(BMul(x, b), BMul(a, R32(1)), m)
         [] f = "dot"  -> Congr(BMul(x, R32(1)), BDot(a, b), m)
         [] f = "to"   -> Congr(x, BMul(a, R32(1)), m)
         [] f = "from" -> Congr(BMul(x, R32(1)), a, m)
         [] f = "exp"  -> LET std == BMod(BMul(a, BPowMod(R32(1), BSub(m, <<2>>), m)), m)   \* a / R
                          IN Congr(x, BMul(BPowMod(std, b, m), R32(1)), m)
         [] f = "exp2" -> LET std == BMod(BMul(a, BPowMod(R32(1), BSub(m, <<2>>), m)), m)
                          IN Congr(x, BMul(BPowMod(std, BPow2(b), m), R32(1)), m)
  ELSE
    CASE f = "reduce"   -> Is(be, x, a, m, w)
      [] f = "lazy"     -> IsLazy(x, a, m)
      [] f = "wide"     -> Is(be, x, BDigits(a, w), m, w)       \* two words or a slice of words
      [] f = "widelazy" -> IsLazy(x, BDigits(a, w), m)
      [] f = "add"      -> Is(be, x, BAdd(a, b), m, w)
      [] f = "sub"      -> BLt(x, BPow2(w)) /\ Congr(BAdd(x, b), a, m) /\ (be # "gold" => BLt(x, m))
      [] f = "neg"      -> BLt(x, BPow2(w)) /\ Congr(BAdd(x, a), << >>, m) /\ (be # "gold" => BLt(x, m))
      [] f = "mul"      -> Is(be, x, BMul(a, b), m, w)
      [] f = "mullazy"  -> IsLazy(x, BMul(a, b), m)
      [] f = "exp"      -> Is(be, x, BPowMod(a, b, m), m, w)
      [] f = "exp2"     -> Is(be, x, BPowMod(a, BPow2(b), m), m, w)   \* b is a plain number
      [] f = "inv"      -> (be # "gold" => BLt(x, m)) /\ Congr(BMul(x, a), One, m)
      [] f = "div"      -> IF be = "wrap"
                           THEN BLe(BMul(x, b), a) /\ BLt(a, BAdd(BMul(x, b), b))   \* floor
                           ELSE (be # "gold" => BLt(x, m)) /\ Congr(BMul(x, b), a, m)
      [] f = "dot"      -> Is(be, x, BDot(a, b), m, w)
      [] f = "canon"    -> x = BMod(a, m)
      (* Shoup quotient and Barrett ratio are determined by the modulus *)
      [] f = "value"    -> x = a

(* Wide operations: c is the incoming carry (0/1 or a word), <<lo, hi>> the result *)
Wide(f, w, a, b, c, lo, hi) ==
    /\ BLt(lo, BPow2(w)) /\ BLt(hi, BPow2(w))
    /\ CASE f = "cadd" -> BAdd(lo, BMul(hi, BPow2(w))) = BAdd(BAdd(a, b), c)
         [] f = "bsub" -> BAdd(lo, BAdd(b, c)) = BAdd(a, BMul(hi, BPow2(w)))
         [] f = "wmul" -> BAdd(lo, BMul(hi, BPow2(w))) = BMul(a, b)
         [] f = "cmul" -> BAdd(lo, BMul(hi, BPow2(w))) = BAdd(BMul(a, b), c)

(* Wrapping word operations (modulo 2^w); shifts use the count modulo w *)
WordOp(f, w, a, b, x) ==
    LET M == BPow2(w) IN
    CASE f = "wadd" -> x = BMod(BAdd(a, b), M)
      [] f = "wsub" -> x = BSubMod(a, b, M)
      [] f = "wneg" -> x = BSubMod(<< >>, a, M)
      [] f = "wmul" -> x = BMod(BMul(a, b), M)
      [] f = "wshl" -> x = BMod(BMul(a, BPow2(b % w)), M)
      [] f = "wshr" -> BLe(BMul(x, BPow2(b % w)), a) /\ BLt(a, BMul(BAdd(x, One), BPow2(b % w)))
      [] f = "cast" -> x = BMod(a, M)

---------------------------------------------------------------------------
(* The same operations on 8-bit words with plain numbers, for exhaustive rows. *)
Small(f, m, a, b, x) ==
    CASE f = "add"      -> x = (a + b) % m
      [] f = "sub"      -> x = (a - b) % m
      [] f = "mul"      -> x = (a * b) % m
      [] f = "mullazy"  -> x < 2 * m /\ x % m = (a * b) % m
      [] f = "neg"      -> x = (m - b) % m
      [] f = "reduce"   -> x = b % m
      [] f = "lazy"     -> x < 2 * m /\ x % m = b % m
      [] f = "wide"     -> x = (256 * a + b) % m
      [] f = "widelazy" -> x < 2 * m /\ x % m = (256 * a + b) % m
      [] f = "inv"      -> IF x = -1 THEN \A y \in 1..(m - 1) : (b * y) % m # 1
                           ELSE x < m /\ (b * x) % m = 1 % m
      [] f = "exp2"     -> x = PowMod(a, Pow2(b), m)
      [] f = "exp"      -> x = PowMod(a, b, m)
      [] f = "cadd0"    -> x = a + b                 \* lo + 256 * carry, carry-in 0 or 1
      [] f = "cadd1"    -> x = a + b + 1
      [] f = "bsub0"    -> x = a - b                 \* lo - 256 * borrow
      [] f = "bsub1"    -> x = a - b - 1
      [] f = "wmul"     -> x = a * b
=============================================================================
