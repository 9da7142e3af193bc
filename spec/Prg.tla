--------------------------------- MODULE Prg --------------------------------
(***************************************************************************)
(* The seeded generator as a user sees it: an endless stream of bytes, the *)
(* concatenation of Cipher(0), Cipher(1), ... (16 bytes each), read        *)
(* through a cursor that counts 32-bit words.                              *)
(* Cipher(j) is the j-th block; it is a parameter so that the design model *)
(* can use symbolic blocks and the trace specification real AES.           *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

CeilWords(n) == (n + 3) \div 4

(* k bytes of the stream starting at word w. *)
Bytes(Cipher(_), w, k) ==
    IF k = 0 THEN << >>
    ELSE LET lo == (4 * w) \div 16
             hi == (4 * w + k - 1) \div 16
             bl == TLCEval([j \in 1..(hi - lo + 1) |-> Cipher(lo + j - 1)])
         IN TLCEval([i \in 1..k |-> LET p == 4 * w + i - 1
                                    IN bl[(p \div 16) - lo + 1][(p % 16) + 1]])

(* What a call consumes (words) and returns (a byte sequence), for a cursor at w. *)
(* op: "u32", "u64", "fill" (n bytes), "block" (one block), "bool", "byte",       *)
(* "blocks" (n blocks), "bools" (n), "bytes" (n)                                  *)
Words(op, n) ==
    CASE op \in {"u32", "bool", "byte"} -> 1
      [] op = "u64"    -> 2
      [] op = "block"  -> 4
      [] op \in {"fill", "tryfill", "bytes"} -> CeilWords(n)
      [] op = "blocks" -> 4 * n
      [] op = "bools"  -> n
Result(Cipher(_), w, op, n) ==
    CASE op = "u32"    -> Bytes(Cipher, w, 4)
      [] op = "u64"    -> Bytes(Cipher, w, 8)
      [] op = "block"  -> Bytes(Cipher, w, 16)
      [] op \in {"fill", "tryfill", "bytes"} -> Bytes(Cipher, w, n)
      [] op = "blocks" -> Bytes(Cipher, w, 16 * n)
      [] op = "byte"   -> SubSeq(Bytes(Cipher, w, 4), 1, 1)
      [] op = "bool"   -> <<Bytes(Cipher, w, 4)[4] \div 128>>
      [] op = "bools"  -> LET y == Bytes(Cipher, w, 4 * n)
                          IN [i \in 1..n |-> y[4 * i] \div 128]
=============================================================================
