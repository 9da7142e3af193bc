------------------------------- MODULE MC_Aes -------------------------------
(* The AES specification against published FIPS-197 / SP 800-38A vectors,   *)
(* and its S-box against its algebraic definition's fixed facts.            *)
EXTENDS Aes, Integers, Sequences
VARIABLE k
H(x) == x
Seq16(f) == [i \in 1..16 |-> f[i]]
K1 == [i \in 1..16 |-> i - 1]
P1 == [i \in 1..16 |-> 17 * (i - 1)]
C1 == <<105, 196, 224, 216, 106, 123, 4, 48, 216, 205, 183, 128, 112, 180, 197, 90>>
K2 == <<43, 126, 21, 22, 40, 174, 210, 166, 171, 247, 21, 136, 9, 207, 79, 60>>
P2 == <<107, 193, 190, 226, 46, 64, 159, 150, 233, 61, 126, 17, 115, 147, 23, 42>>
C2 == <<58, 215, 123, 180, 13, 122, 54, 96, 168, 158, 202, 243, 36, 102, 239, 151>>
P3 == <<174, 45, 138, 87, 30, 3, 172, 156, 158, 183, 111, 172, 69, 175, 142, 81>>
C3 == <<245, 211, 213, 133, 3, 185, 105, 157, 231, 133, 137, 90, 150, 253, 186, 175>>
Vectors == <<[k |-> K1, p |-> P1, c |-> C1], [k |-> K2, p |-> P2, c |-> C2], [k |-> K2, p |-> P3, c |-> C3]>>
Init == k = 0
Next == k < 256 + Len(Vectors) /\ k' = k + 1
Inv == /\ k \in 1..256 => /\ SBox[k] = SubByte(k - 1)
                          /\ Mul2[k] = XTime(k - 1)
                          /\ \A j \in 1..256 : j # k => SBox[j] # SBox[k]
                          /\ (k > 1 => GMul(k - 1, GInv(k - 1)) = 1)
       /\ k > 256 => Encrypt(Vectors[k - 256].k, Vectors[k - 256].p) = Vectors[k - 256].c
=============================================================================
