--------------------------------- MODULE Aes --------------------------------
(* AES-128 (FIPS-197) on sequences of 16 bytes, byte 1 first.              *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE Bitwise
LOCAL INSTANCE TLC

XorB(a, b) == a ^^ b
XorSeq(x, y) == TLCEval([i \in 1..Len(x) |-> XorB(x[i], y[i])])

(* GF(2^8) modulo x^8+x^4+x^3+x+1 *)
XTime(a) == IF a >= 128 THEN XorB(2 * a - 256, 27) ELSE 2 * a
RECURSIVE GMul(_, _)
GMul(a, b) == IF b = 0 THEN 0
              ELSE XorB(IF b % 2 = 1 THEN a ELSE 0, GMul(XTime(a), b \div 2))
RECURSIVE GPow(_, _)
GPow(a, e) == IF e = 0 THEN 1
              ELSE LET h == GPow(a, e \div 2) s == GMul(h, h)
                   IN IF e % 2 = 1 THEN GMul(s, a) ELSE s
GInv(a) == GPow(a, 254)                                  \* 0 maps to 0
Rotl(a, k) == LET p == CASE k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8 [] k = 4 -> 16
              IN ((a * p) % 256) + ((a * p) \div 256)
SubByte(a) == LET i == GInv(a)
              IN XorB(XorB(XorB(XorB(XorB(i, Rotl(i, 1)), Rotl(i, 2)), Rotl(i, 3)), Rotl(i, 4)), 99)
(* Tables, written out because TLC does not cache constants defined through recursion;
   MC_Aes checks SBox[a+1] = SubByte(a) and Mul2[a+1] = XTime(a). *)
SBox == <<
    99, 124, 119, 123, 242, 107, 111, 197, 48, 1, 103, 43, 254, 215, 171, 118,
    202, 130, 201, 125, 250, 89, 71, 240, 173, 212, 162, 175, 156, 164, 114, 192,
    183, 253, 147, 38, 54, 63, 247, 204, 52, 165, 229, 241, 113, 216, 49, 21,
    4, 199, 35, 195, 24, 150, 5, 154, 7, 18, 128, 226, 235, 39, 178, 117,
    9, 131, 44, 26, 27, 110, 90, 160, 82, 59, 214, 179, 41, 227, 47, 132,
    83, 209, 0, 237, 32, 252, 177, 91, 106, 203, 190, 57, 74, 76, 88, 207,
    208, 239, 170, 251, 67, 77, 51, 133, 69, 249, 2, 127, 80, 60, 159, 168,
    81, 163, 64, 143, 146, 157, 56, 245, 188, 182, 218, 33, 16, 255, 243, 210,
    205, 12, 19, 236, 95, 151, 68, 23, 196, 167, 126, 61, 100, 93, 25, 115,
    96, 129, 79, 220, 34, 42, 144, 136, 70, 238, 184, 20, 222, 94, 11, 219,
    224, 50, 58, 10, 73, 6, 36, 92, 194, 211, 172, 98, 145, 149, 228, 121,
    231, 200, 55, 109, 141, 213, 78, 169, 108, 86, 244, 234, 101, 122, 174, 8,
    186, 120, 37, 46, 28, 166, 180, 198, 232, 221, 116, 31, 75, 189, 139, 138,
    112, 62, 181, 102, 72, 3, 246, 14, 97, 53, 87, 185, 134, 193, 29, 158,
    225, 248, 152, 17, 105, 217, 142, 148, 155, 30, 135, 233, 206, 85, 40, 223,
    140, 161, 137, 13, 191, 230, 66, 104, 65, 153, 45, 15, 176, 84, 187, 22 >>
Mul2 == <<
    0, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30,
    32, 34, 36, 38, 40, 42, 44, 46, 48, 50, 52, 54, 56, 58, 60, 62,
    64, 66, 68, 70, 72, 74, 76, 78, 80, 82, 84, 86, 88, 90, 92, 94,
    96, 98, 100, 102, 104, 106, 108, 110, 112, 114, 116, 118, 120, 122, 124, 126,
    128, 130, 132, 134, 136, 138, 140, 142, 144, 146, 148, 150, 152, 154, 156, 158,
    160, 162, 164, 166, 168, 170, 172, 174, 176, 178, 180, 182, 184, 186, 188, 190,
    192, 194, 196, 198, 200, 202, 204, 206, 208, 210, 212, 214, 216, 218, 220, 222,
    224, 226, 228, 230, 232, 234, 236, 238, 240, 242, 244, 246, 248, 250, 252, 254,
    27, 25, 31, 29, 19, 17, 23, 21, 11, 9, 15, 13, 3, 1, 7, 5,
    59, 57, 63, 61, 51, 49, 55, 53, 43, 41, 47, 45, 35, 33, 39, 37,
    91, 89, 95, 93, 83, 81, 87, 85, 75, 73, 79, 77, 67, 65, 71, 69,
    123, 121, 127, 125, 115, 113, 119, 117, 107, 105, 111, 109, 99, 97, 103, 101,
    155, 153, 159, 157, 147, 145, 151, 149, 139, 137, 143, 141, 131, 129, 135, 133,
    187, 185, 191, 189, 179, 177, 183, 181, 171, 169, 175, 173, 163, 161, 167, 165,
    219, 217, 223, 221, 211, 209, 215, 213, 203, 201, 207, 205, 195, 193, 199, 197,
    251, 249, 255, 253, 243, 241, 247, 245, 235, 233, 239, 237, 227, 225, 231, 229 >>
Sub(a) == SBox[a + 1]
M2(a) == Mul2[a + 1]
M3(a) == XorB(Mul2[a + 1], a)

(* Key expansion: words 0..43 as 4-byte sequences, round key r = words 4r..4r+3 *)
RCon == <<1, 2, 4, 8, 16, 32, 64, 128, 27, 54>>
RECURSIVE Expand(_, _)
Expand(w, i) ==                                          \* w: words 0..i-1 (1-based sequence)
    IF i = 44 THEN w
    ELSE LET p == w[i]
             t == IF i % 4 = 0
                  THEN <<XorB(Sub(p[2]), RCon[i \div 4]), Sub(p[3]), Sub(p[4]), Sub(p[1])>>
                  ELSE p
         IN Expand(Append(w, XorSeq(w[i - 3], t)), i + 1)
KeySchedule(key) ==
    LET w == Expand([k \in 1..4 |-> SubSeq(key, 4 * k - 3, 4 * k)], 4)
    IN TLCEval([r \in 1..11 |-> w[4 * r - 3] \o w[4 * r - 2] \o w[4 * r - 1] \o w[4 * r]])

(* State is column-major, so byte i (0-based) is row i % 4 of column i div 4. *)
SubShift(s) == TLCEval([i \in 1..16 |-> Sub(s[((i - 1 + 4 * ((i - 1) % 4)) % 16) + 1])])
MixColumn(a, b, c, d) ==
    << XorB(XorB(M2(a), M3(b)), XorB(c, d)),
       XorB(XorB(a, M2(b)), XorB(M3(c), d)),
       XorB(XorB(a, b), XorB(M2(c), M3(d))),
       XorB(XorB(M3(a), b), XorB(c, M2(d))) >>
MixColumns(s) == MixColumn(s[1], s[2], s[3], s[4]) \o MixColumn(s[5], s[6], s[7], s[8])
              \o MixColumn(s[9], s[10], s[11], s[12]) \o MixColumn(s[13], s[14], s[15], s[16])
RECURSIVE Rounds(_, _, _)
Rounds(s, rk, r) ==
    IF r = 11 THEN XorSeq(SubShift(s), rk[11])
    ELSE Rounds(XorSeq(MixColumns(SubShift(s)), rk[r]), rk, r + 1)
EncryptWith(rk, block) == Rounds(XorSeq(block, rk[1]), rk, 2)
Encrypt(key, block) == EncryptWith(KeySchedule(key), block)
=============================================================================
