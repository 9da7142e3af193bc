------------------------------- MODULE MC_Gadget -------------------------------
(* Gadget and external products, digit by digit.  A job is a list of factors <<p, w>>: polynomial *)
(* p is consumed in digits of Bits bits, least significant first, and every digit polynomial      *)
(* multiplies the next row of a gadget encryption of w.  One factor is a gadget product p*w; the  *)
(* two factors <<a, -s*w>>, <<b, w>> are the external product of <<a,b>> with an RGSW encryption  *)
(* of w.  Rows are fresh RLWE ciphertexts with any mask from Masks and any error up to E.         *)
EXTENDS Lattice, Integers, Sequences, TLC
CONSTANTS P, N, Bits, E, Ext, Masks, Els
VARIABLES s, job, f, j, rest, acc, done
vars == <<s, job, f, j, rest, acc, done>>
M == BFromInt(P)
MB == LET RECURSIVE L(_)
          L(x) == IF x = 0 THEN 0 ELSE 1 + L(x \div 2)
      IN  L(P)
GLen == GadgetLen(MB, Bits)
B == 2 ^ Bits
El(x) == BFromInt(x % P)
Polys == [1..N -> {El(x) : x \in Els}]
All == [1..N -> {El(x) : x \in 0..(P - 1)}]
Key == [1..N -> {El(0), El(1), El(P - 1)}]
Jobs == IF Ext THEN {<<<<a, PNeg(PMul(s, w, M), M)>>, <<b, w>>>> : a \in Polys, b \in All, w \in Polys}
        ELSE {<<<<p, w>>>> : p \in All, w \in Polys}
Init == /\ s \in Key /\ job \in Jobs /\ f = 1 /\ j = 0
        /\ rest = job[1][1] /\ acc = <<PZero(N), PZero(N)>> /\ done = PZero(N)
Val(x) == IF x = << >> THEN 0 ELSE x[1]                 \* P < 2^15
Digit == [i \in 1..N |-> El(Val(rest[i]) % B)]
Row(a, e) == <<a, PAdd(PAdd(PMul(a, s, M), e, M), PScale(job[f][2], BPow2(Bits * j), M), M)>>
Step == /\ f <= Len(job) /\ j < GLen
        /\ \E a \in [1..N -> {El(x) : x \in Masks}], e \in [1..N -> {El(x) : x \in -E..E}] :
             acc' = RAdd(acc, RMulP(Row(a, e), Digit, M), M)
        /\ done' = PAdd(done, PMul(PScale(Digit, BPow2(Bits * j), M), job[f][2], M), M)
        /\ rest' = [i \in 1..N |-> El(Val(rest[i]) \div B)]
        /\ j' = j + 1 /\ UNCHANGED <<s, job, f>>
NextFactor == /\ f <= Len(job) /\ j = GLen
              /\ f' = f + 1 /\ j' = 0
              /\ rest' = (IF f < Len(job) THEN job[f + 1][1] ELSE rest) /\ UNCHANGED <<s, job, acc, done>>
Next == Step \/ NextFactor
Spec == Init /\ [][Next]_vars
DigitsBelow == \A i \in 1..N : Val(rest[i]) % B < B
(* what is left plus what was consumed is the whole factor; nothing is left after the last digit  *)
RECURSIVE Before(_)
Before(i) == IF i = 0 THEN PZero(N) ELSE PAdd(Before(i - 1), PMul(job[i][1], job[i][2], M), M)
Consumed == f <= Len(job) => PAdd(done, PMul(PScale(rest, BPow2(Bits * j), M), job[f][2], M), M) = Before(f)
Exhausted == j = GLen => rest = PZero(N)
Bound == BFromInt(((f - 1) * GLen + j) * N * (B - 1) * E)
Noise == PNear(RPhase(acc, s, M), done, Bound, M)
Result == f > Len(job) =>
    LET c == <<job[1][1], IF Ext THEN job[2][1] ELSE << >>>>
        w == IF Ext THEN job[2][2] ELSE job[1][2]
    IN  done = (IF Ext THEN PMul(RPhase(c, s, M), w, M) ELSE PMul(job[1][1], w, M))
=============================================================================
