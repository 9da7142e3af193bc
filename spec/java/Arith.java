// Java equivalents of some operators of Arith.tla (TLC loads them by name).
// They only speed TLC up: ArithSelfTest.tla checks them against the TLA+ definitions.
import java.math.BigInteger;
import tlc2.value.impl.*;

public class Arith {
    private static Value[] el(Value v) { return ((TupleValue) v.toTuple()).elems; }
    private static int iv(Value v) { return ((IntValue) v).val; }
    private static long md(long a, long m) { long r = a % m; return r < 0 ? r + m : r; }

    public static Value MulMod(Value a, Value b, Value m) {
        return IntValue.gen((int) (md(iv(a), iv(m)) * md(iv(b), iv(m)) % iv(m)));
    }
    private static long pow(long a, long e, long m) {
        long r = 1 % m; a = md(a, m);
        for (; e > 0; e >>= 1) { if ((e & 1) == 1) r = r * a % m; a = a * a % m; }
        return r;
    }
    public static Value PowMod(Value a, Value e, Value m) {
        return IntValue.gen((int) pow(iv(a), iv(e), iv(m)));
    }
    public static Value DotMod(Value u, Value v, Value m) {
        Value[] x = el(u), y = el(v); long mm = iv(m), r = 0;
        for (int i = 0; i < x.length; i++) r = (r + md(iv(x[i]), mm) * md(iv(y[i]), mm)) % mm;
        return IntValue.gen((int) r);
    }
    private static long[] arr(Value v) {
        Value[] e = el(v); long[] r = new long[e.length];
        for (int i = 0; i < r.length; i++) r[i] = iv(e[i]);
        return r;
    }
    private static Value seq(long[] r) {
        Value[] o = new Value[r.length];
        for (int i = 0; i < r.length; i++) o[i] = IntValue.gen((int) r[i]);
        return new TupleValue(o);
    }
    public static Value NegMul(Value u, Value v, Value m) {
        long[] x = arr(u), y = arr(v); int n = x.length; long mm = iv(m);
        long[] r = new long[n];
        for (int i = 0; i < n; i++) {
            if (x[i] == 0) continue;
            for (int j = 0; j < n; j++) {
                if (y[j] == 0) continue;
                long p = x[i] * y[j] % mm; int k = i + j;
                if (k >= n) { k -= n; r[k] -= p; if (r[k] < 0) r[k] += mm; }
                else { r[k] += p; if (r[k] >= mm) r[k] -= mm; }
            }
        }
        return seq(r);
    }
    private static long eval(long[] u, long x, long m) {
        long r = 0;
        for (int i = u.length - 1; i >= 0; i--) r = (r * x + u[i]) % m;
        return r;
    }
    public static Value EvalPoly(Value u, Value x, Value m) {
        return IntValue.gen((int) eval(arr(u), md(iv(x), iv(m)), iv(m)));
    }
    public static Value Ntt(Value u, Value root, Value k, Value m) {
        long[] a = arr(u); int n = a.length, kk = iv(k); long[] r = new long[n];
        for (int i = 0; i < n; i++) {
            long rev = kk == 0 ? 0 : (Integer.reverse(i) >>> (32 - kk));
            r[i] = eval(a, pow(iv(root), 2 * rev + 1, iv(m)), iv(m));
        }
        return seq(r);
    }

    private static BigInteger big(Value v) {
        Value[] e = el(v); BigInteger r = BigInteger.ZERO;
        for (int i = e.length - 1; i >= 0; i--) r = r.shiftLeft(15).add(BigInteger.valueOf(iv(e[i])));
        return r;
    }
    private static final BigInteger MASK = BigInteger.valueOf(32767);
    private static Value limbs(BigInteger b) {
        int n = (b.bitLength() + 14) / 15; Value[] o = new Value[n];
        for (int i = 0; i < n; i++) { o[i] = IntValue.gen(b.and(MASK).intValue()); b = b.shiftRight(15); }
        return new TupleValue(o);
    }
    public static Value BAdd(Value x, Value y) { return limbs(big(x).add(big(y))); }
    public static Value BSub(Value x, Value y) { return limbs(big(x).subtract(big(y))); }
    public static Value BMul(Value x, Value y) { return limbs(big(x).multiply(big(y))); }
    public static Value BMod(Value x, Value y) { return limbs(big(x).mod(big(y))); }
    public static Value BDiv(Value x, Value y) { return limbs(big(x).divide(big(y))); }
    public static Value BPowMod(Value x, Value e, Value m) { return limbs(big(x).modPow(big(e), big(m))); }
}
