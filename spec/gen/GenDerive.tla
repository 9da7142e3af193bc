------------------------------- MODULE GenDerive -------------------------------
(* Field definitions: valid ones of every width, magnitude and notation, and definitions with one or *)
(* two things wrong.  <<shape, type, attribute, magnitude, notation, layout>>                         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT D
VARIABLE hist
Widths == {"u8", "u16", "u32", "u64"}
Types == {"u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f64", "bool", "char", "[u32; 1]", "(u32, u32)", "&'static u32"}
Shapes == {"tuple0", "tuple2", "named", "unit", "enum", "generic"}
Attrs == {"missing", "string", "neg", "float", "list", "path", "ident", "bool", "char", "expr"}
Good == {"two", "three", "small", "random", "odd", "prime", "ntt", "top", "topm", "topprime", "pow2", "liar"}
Bad == {"zero", "one", "spare1", "spare1r", "spare0", "spare0r", "max", "over", "overr"}
Notes == {"dec", "under", "hex", "oct", "bin"}
Layouts == 0..5
Put(s, t, a, m, n, y) == hist' = Append(hist, <<s, t, a, m, n, y>>)
Init == hist = << >>
Room == Len(hist) < D
Valid  == Room /\ \E t \in Widths, m \in Good, n \in Notes, y \in Layouts : Put("tuple1", t, "int", m, n, y)
Prime  == Room /\ \E t \in Widths, m \in {"prime", "ntt", "topprime"}, n \in Notes, y \in Layouts : Put("tuple1", t, "int", m, n, y)
Liar   == Room /\ \E t \in {"u16", "u32", "u64"}, y \in Layouts : Put("tuple1", t, "int", "liar", "dec", y)
TooBig == Room /\ \E t \in Widths, m \in Bad, n \in Notes, y \in Layouts : Put("tuple1", t, "int", m, n, y)
Shape  == Room /\ \E s \in Shapes, t \in Widths, m \in Good, n \in Notes, y \in Layouts : Put(s, t, "int", m, n, y)
Type   == Room /\ \E t \in Types, m \in {"small", "prime"}, n \in {"dec", "hex"}, y \in Layouts : Put("tuple1", t, "int", m, n, y)
Attr   == Room /\ \E t \in Widths, a \in Attrs, m \in Good, y \in Layouts : Put("tuple1", t, a, m, "dec", y)
Two    == Room /\ \E s \in Shapes, t \in Widths, a \in Attrs, m \in Good \cup Bad, y \in Layouts : Put(s, t, a, m, "dec", y)
Next == Valid \/ Prime \/ Liar \/ TooBig \/ Shape \/ Type \/ Attr \/ Two
Finish == Len(hist) = D /\ Put("end", "", "", "", "", 0)
GNext == Next \/ Finish
Emit == Len(hist) = D + 1 => PrintT("BEH " \o ToJson(hist))
===============================================================================
