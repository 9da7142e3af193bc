-------------------------------- MODULE Derive --------------------------------
(***************************************************************************)
(* Field definitions: a struct with the derive attribute and a modulus.    *)
(* A definition is a record                                                *)
(*   shape : how the type is written ("tuple1": one unnamed field)         *)
(*   ty    : type of the (first) field                                     *)
(*   attr  : what the modulus attribute holds ("int": integer literal)     *)
(*   lit   : value of the literal                                          *)
(* The definition is accepted exactly when it is a tuple struct around one *)
(* unsigned word and the modulus is an integer of at least 2 that leaves   *)
(* the two topmost bits of the word free.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, Arith, NumTheory

Width(ty) == CASE ty = "u8" -> 8 [] ty = "u16" -> 16 [] ty = "u32" -> 32 [] ty = "u64" -> 64 [] OTHER -> 0
Spare == 2
FitsW(lit, w) == BLe(<<2>>, lit) /\ BLt(lit, BPow2(w - Spare))
AcceptW(shape, w, attr, lit) == shape = "tuple1" /\ w > 0 /\ attr = "int" /\ FitsW(lit, w)
Accepts(shape, ty, attr, lit) == AcceptW(shape, Width(ty), attr, lit)

(* exponent of two in n - 1: the field has roots of order 2^k exactly for k up to it *)
RECURSIVE Twos(_)
Twos(x) == IF x = << >> \/ BOdd(x) THEN 0 ELSE 1 + Twos(BHalf(x))
(* a table for 2^k points needs a root of order 2^(k+1), and 2^(k+1) has to fit the word *)
HasTable(p, w, k) == k + 1 <= Twos(BSub(p, <<1>>)) /\ k + 1 < w
===============================================================================
