------------------------------ MODULE PrgTrace ------------------------------
(* Recorded calls of the real AES and of the real generator.               *)
EXTENDS TraceKit, Aes, Bitwise, FiniteSets
P == INSTANCE Prg
VARIABLES rk,             \* round keys of the session's key
          pos,            \* cursor of every generator clone: a sequence of word positions
          page            \* pages of 2^24 blocks before position 0

(* block number page * 2^24 + j, least significant byte first *)
CtrBlock(j) == LET h == page + (j \div 16777216) IN
               [i \in 1..16 |-> CASE i = 1 -> j % 256 [] i = 2 -> (j \div 256) % 256
                                  [] i = 3 -> (j \div 65536) % 256
                                  [] i = 4 -> h % 256 [] i = 5 -> (h \div 256) % 256 [] i = 6 -> h \div 65536 [] OTHER -> 0]
Cipher(j) == EncryptWith(rk, CtrBlock(j))

Init == /\ TkInit
        /\ rk = KeySchedule(Head0.key)
        /\ pos = <<0>> /\ page = 0

(* one block, a fixed-size batch or a slice: every block is encrypted on its own *)
Enc == /\ Eat("enc")
       /\ Len(E.out) = Len(E.ins)
       /\ \A i \in 1..Len(E.ins) : E.out[i] = EncryptWith(rk, E.ins[i])
       /\ UNCHANGED <<rk, pos, page>>
Clone == /\ Eat("clone")
         /\ pos' = Append(pos, pos[E.g])
         /\ UNCHANGED <<rk, page>>
Read == /\ Eat("read")
        /\ E.out = P!Result(Cipher, pos[E.g], E.k, E.n)
        /\ pos' = [pos EXCEPT ![E.g] = @ + P!Words(E.k, E.n)]
        /\ UNCHANGED <<rk, page>>
(* bytes read but not recorded: only the cursor moves *)
Skip == /\ Eat("skip")
        /\ pos' = [pos EXCEPT ![E.g] = @ + P!CeilWords(E.n)]
        /\ UNCHANGED <<rk, page>>
(* one long read, of which windows are recorded: out is what begins at the o-th item of the result *)
Window(w, k, q) == IF k = "bools" THEN P!Result(Cipher, w + q.o, k, Len(q.out))
                                  ELSE P!Bytes(Cipher, w + q.o \div 4, Len(q.out))
LongRead == /\ Eat("long")
            /\ E.len = (IF E.k = "blocks" THEN 16 * E.n ELSE E.n)
            /\ \A i \in DOMAIN E.parts : E.parts[i].out = Window(pos[E.g], E.k, E.parts[i])
            /\ pos' = [pos EXCEPT ![E.g] = @ + P!Words(E.k, E.n)]
            /\ UNCHANGED <<rk, page>>
(* whole pages *)
Pages == /\ Eat("pages") /\ page' = page + E.k /\ UNCHANGED <<rk, pos>>
(* the 128-bit block type: bitwise operators and conversions preserve the bytes *)
BlockOp == /\ Eat("blk")
           /\ Len(E.out) = 16
           /\ \A i \in 1..16 : E.out[i] =
                 CASE E.k = "xor" -> E.x[i] ^^ E.y[i]
                   [] E.k = "and" -> E.x[i] & E.y[i]
                   [] E.k = "or"  -> E.x[i] | E.y[i]
                   [] E.k = "id"  -> E.x[i]
           /\ UNCHANGED <<rk, pos, page>>
BlockEq == /\ Eat("blkeq")
           /\ E.eq = (E.x = E.y)
           /\ UNCHANGED <<rk, pos, page>>
(* generators created without a seed: no 16-byte block occurs twice among their streams *)
Fresh == /\ Eat("fresh")
         /\ \A bs \in {[i \in 1..(2 * Len(E.outs)) |-> SubSeq(E.outs[(i + 1) \div 2], 16 * ((i + 1) % 2) + 1, 16 * ((i + 1) % 2) + 16)]} :
              Cardinality({bs[i] : i \in DOMAIN bs}) = Len(bs)
         /\ UNCHANGED <<rk, pos, page>>
SliceLen == /\ Eat("slice")                              \* only 16-byte slices convert
            /\ E.some = (E.n = 16)
            /\ UNCHANGED <<rk, pos, page>>
Next == Enc \/ Clone \/ Read \/ LongRead \/ Skip \/ Pages \/ BlockOp \/ BlockEq \/ Fresh \/ SliceLen \/ (AtEnd /\ UNCHANGED <<rk, pos, page>>)
=============================================================================
