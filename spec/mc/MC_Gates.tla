------------------------------- MODULE MC_Gates -------------------------------
(* Circuits of gates over wires.  A wire carries its intended bit and a phase error; every gate   *)
(* combines phases, the bootstrap switches to 2N with a rounding error of at most MsErr (none for *)
(* q <= 2N), reads the gate's table exactly as the implementation lays it out, adds an eighth and *)
(* leaves an error of at most OutErr.  Checked: with both errors inside the margins of the        *)
(* parameter sets, every wire of every circuit decrypts to its intended bit, whatever the errors. *)
(* NOT keeps the error, so it costs nothing; everything else resets it.                           *)
EXTENDS Fhe, Integers, Sequences, FiniteSets, TLC
CONSTANTS QV, N, MsErr, OutErr, InErr, Wires
VARIABLES bit, ph, done
vars == <<bit, ph, done>>
Two == 2 * N
W == 1..Wires
Fold(x) == x % QV
Step == IF Two % QV = 0 THEN Two \div QV ELSE 1
(* tables: +1, -1 stand for plus and minus Q/8; entries the phase cannot select are 0 *)
Split(mid, lo, hi) == [k \in 0..(N - 1) |->
    IF k < mid THEN (IF k % Step = 0 THEN lo ELSE 0) ELSE (IF (k - mid) % Step = 0 THEN hi ELSE 0)]
Table(g) == CASE g = "nand" -> Split((N \div 2) + (N \div 4), 1, 0 - 1)
              [] g \in {"and", "majority"} -> Split((N \div 2) + (N \div 4), 0 - 1, 1)
              [] g = "or" -> Split(N \div 4, 0 - 1, 1)
              [] g = "nor" -> Split(N \div 4, 1, 0 - 1)
              [] g = "xor" -> Split(N \div 2, 0 - 1, 1)
              [] g = "xnor" -> Split(N \div 2, 1, 0 - 1)
Read(tb, p) == IF p < N THEN tb[p] ELSE 0 - tb[p - N]
(* switched phases: exact for q <= 2N *)
Scaled(p) == IF Two % QV = 0 THEN {p * Step}
             ELSE LET k == QV \div Two IN {((((p + (k \div 2)) \div k) + e) + Two) % Two : e \in (0 - MsErr)..MsErr}
(* the entry is +-1 eighth; plus one eighth gives 0 or a quarter; then the rounding error *)
Outs(tb, p) == UNION {{Fold((((Read(tb, i) + 1) * QV) \div 8) + e + QV) : e \in (0 - OutErr)..OutErr} : i \in Scaled(p)}
Comb(g, x, y, z) == CASE g = "majority" -> Fold(x + y + z)
                      [] g \in {"xor", "xnor"} -> Fold(2 * ((x - y) + QV))
                      [] OTHER -> Fold(x + y)
Init == /\ bit \in [W -> BOOLEAN] /\ done = 0
        /\ ph \in {[w \in W |-> Fold((IF bit[w] THEN QV \div 4 ELSE 0) + e[w] + QV)] : e \in [W -> {0 - InErr, 0, InErr}]}
Put(d, v, p) == bit' = [bit EXCEPT ![d] = v] /\ ph' = [ph EXCEPT ![d] = p]
Bin == \E g \in {"nand", "and", "or", "nor", "xor", "xnor"}, a, b, d \in W :
         \E p \in Outs(Table(g), Comb(g, ph[a], ph[b], 0)) : Put(d, GateF(g, bit[a], bit[b], FALSE), p)
Maj == \E a, b, c, d \in W : \E p \in Outs(Table("majority"), Comb("majority", ph[a], ph[b], ph[c])) :
         Put(d, GateF("majority", bit[a], bit[b], bit[c]), p)
Not == \E a, d \in W : Put(d, ~bit[a], Fold(((QV \div 4) - ph[a]) + QV))
Mux == \E a, b, c, d \in W :
         \E p1 \in Outs(Table("and"), Fold(ph[a] + ph[b])), p2 \in Outs(Table("and"), Fold(((QV \div 4) - ph[a]) + ph[c] + QV)) :
           \E p \in Outs(Table("or"), Fold(p1 + p2)) : Put(d, GateF("mux", bit[a], bit[b], bit[c]), p)
Next == done' = done /\ (Bin \/ Maj \/ Not \/ Mux)
Spec == Init /\ [][Next]_vars
Err(w) == BToInt(Cyc(BFromInt(ph[w]), BFromInt(IF bit[w] THEN QV \div 4 ELSE 0), BFromInt(QV)))
Correct == \A w \in W : Decode(BFromInt(ph[w]), <<4>>, BFromInt(QV)) = (IF bit[w] THEN <<1>> ELSE << >>)
Small == \A w \in W : Err(w) <= Max2(OutErr, InErr)
Marker == done = 0
=============================================================================
