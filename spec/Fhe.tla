-------------------------------- MODULE Fhe --------------------------------
(***************************************************************************)
(* The encryption scheme: encoding, modulus switching, key switching,      *)
(* blind rotation, bootstrapping and gates.  Values are big naturals; Q is *)
(* the ring modulus, q the LWE modulus, N the ring dimension, n the LWE    *)
(* dimension, t the message space.                                         *)
(***************************************************************************)
EXTENDS Lattice
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

Min_(x, y) == IF BLe(x, y) THEN x ELSE y
(* distance of two residues on the circle *)
Cyc(x, y, m) == Min_(BSubMod(x, y, m), BSubMod(y, x, m))
(* keys are recorded as -1, 0, 1 *)
Signed(z, m) == IF z = 0 THEN << >> ELSE IF z > 0 THEN BMod(<<1>>, m) ELSE BNeg(<<1>>, m)
Lift(g, m) == [i \in 1..Len(g) |-> Signed(g[i], m)]
Weight(g) == Cardinality({i \in 1..Len(g) : g[i] # 0})

(* ------------------------------------------------------------- encoding *)
Enc(msg, t, q) == BMul(msg, BDiv(q, t))
(* msg is a nearest encoding to c; at half a step both neighbours are *)
IsDecode(c, msg, t, q) == BLt(msg, t) /\ BLe(BMul(BMul(<<2>>, t), Cyc(c, Enc(msg, t, q), q)), q)
Decode(c, t, q) == BMod(BDiv(BAdd(BMul(BMul(<<2>>, c), t), q), BMul(<<2>>, q)), t)

(* ----------------------------------------------------------- parameters *)
(* n, the ring dimension, is a big natural as well *)
IsPow2(x) == x # << >> /\ x = BPow2(BitLen(x) - 1)
ParamsOk(n, Q, t, q) == /\ IsPow2(n) /\ BMod(BSub(Q, <<1>>), BMul(<<2>>, n)) = << >>
                        /\ IsPow2(t) /\ IsPow2(q) /\ BLe(t, q)
(* k times a count is within 7 deviations of its mean; var: k*k times the variance of the count   *)
Around(kc, mean, var) == LET d == IF kc > mean THEN kc - mean ELSE mean - kc IN d * d <= 49 * var

(* ---------------------------------------------------- modulus switching *)
(* w is v * q1 / q0 rounded to a nearest integer, mod q1 *)
IsSwitch(v, w, q0, q1) ==
    /\ BLt(w, q1)
    /\ BLe(BMul(<<2>>, Cyc(BMul(v, q1), BMul(w, q0), BMul(q0, q1))), q0)
IsSwitchVec(x, y, q0, q1) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : IsSwitch(x[i], y[i], q0, q1)
(* one that rounds half down *)
SwitchDown(v, q0, q1) == LET d == BMul(<<2>>, BMul(v, q1))
                             r == BDiv(BAdd(d, q0), BMul(<<2>>, q0))
                             tie == BMod(BAdd(d, q0), BMul(<<2>>, q0)) = << >>
                         IN  IF tie THEN BSub(r, <<1>>) ELSE BMod(r, q1)
Tie(v, q0, q1) == BMod(BAdd(BMul(<<2>>, BMul(v, q1)), q0), BMul(<<2>>, q0)) = << >>

(* ------------------------------------------------------- bootstrapping *)
(* phases mod two, as integers, that a ciphertext c mod q can have after switching to two = 2N:   *)
(* one value, and its neighbours where components lie exactly half way *)
SwitchPhases(c, g, q, two) ==
    LET tb == BFromInt(two)
        n == Len(g)
        d == [i \in 1..Len(c) |-> SwitchDown(c[i], q, tb)]
        ties == {i \in 1..Len(c) : Tie(c[i], q, tb)}
        up == Cardinality({i \in ties : i > n \/ g[i] < 0})
        dn == Cardinality({i \in ties : i <= n /\ g[i] > 0})
        p == BToInt(LwePhase(d, Lift(g, tb), tb))
    IN  {(p + j) % two : j \in (0 - dn)..up}
(* constant coefficient of lut * X^-p *)
LutAt(lut, p, m) == LET n == Len(lut) IN IF p < n THEN lut[p + 1] ELSE BNeg(lut[(p - n) + 1], m)
(* w mod q is e mod Q, rescaled with a rounding error per key coefficient and the body.          *)
(* h: weight of the key the ciphertext is under at that moment.  The errors are independent and  *)
(* uniform: more than 2*sqrt(h+1) has a probability below 10^-10.  extra: noise times q*Q         *)
NearScaled(w, e, Q, q, h, extra) ==
    LET d == Cyc(BMul(w, Q), BMul(q, e), BMul(q, Q))
        x == IF BLe(d, extra) THEN << >> ELSE BSub(d, extra)
    IN  /\ BLe(BMul(<<2>>, x), BMul(Q, BFromInt(h + 1)))
        /\ BLe(BMul(x, x), BMul(BMul(Q, Q), BFromInt(4 * (h + 1))))

(* worst case noise: a gadget product with rows of error e, len digits below 2^bits, dimension n *)
GadgetNoise(len, bits, n, e) == BMul(BMul(BFromInt(len * n), BSub(BPow2(bits), <<1>>)), e)

(* ----------------------------------------------------------------- gates *)
B2I(x) == IF x THEN 1 ELSE 0
GateF(g, x, y, z) ==
    CASE g = "not" -> ~x
      [] g = "nand" -> ~(x /\ y)
      [] g = "and" -> x /\ y
      [] g = "or" -> x \/ y
      [] g = "nor" -> ~(x \/ y)
      [] g = "xor" -> x # y
      [] g = "xnor" -> x = y
      [] g = "majority" -> B2I(x) + B2I(y) + B2I(z) >= 2
      [] g = "mux" -> IF x THEN y ELSE z
=============================================================================
