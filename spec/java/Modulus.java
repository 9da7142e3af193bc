// Java equivalents of two recursive operators of Modulus.tla (compared with them by ArithSelfTest).
import java.math.BigInteger;
import tlc2.value.impl.*;

public class Modulus {
    private static Value[] el(Value v) { return ((TupleValue) v.toTuple()).elems; }
    static BigInteger big(Value v) {
        Value[] e = el(v); BigInteger r = BigInteger.ZERO;
        for (int i = e.length - 1; i >= 0; i--) r = r.shiftLeft(15).add(BigInteger.valueOf(((IntValue) e[i]).val));
        return r;
    }
    private static final BigInteger MASK = BigInteger.valueOf(32767);
    static Value limbs(BigInteger b) {
        int n = (b.bitLength() + 14) / 15; Value[] o = new Value[n];
        for (int i = 0; i < n; i++) { o[i] = IntValue.gen(b.and(MASK).intValue()); b = b.shiftRight(15); }
        return new TupleValue(o);
    }
    public static Value BDot(Value u, Value v) {
        Value[] x = el(u), y = el(v); BigInteger r = BigInteger.ZERO;
        for (int i = 0; i < x.length; i++) r = r.add(big(x[i]).multiply(big(y[i])));
        return limbs(r);
    }
    public static Value BDigits(Value d, Value w) {
        Value[] x = el(d); BigInteger r = BigInteger.ZERO;
        for (int i = x.length - 1; i >= 0; i--) r = r.shiftLeft(((IntValue) w).val).add(big(x[i]));
        return limbs(r);
    }
}
