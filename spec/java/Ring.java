// Java equivalents of operators of Ring.tla (compared with them by RingSelfTest.tla).
import java.math.BigInteger;
import tlc2.value.impl.*;

public class Ring {
    private static Value[] el(Value v) { return ((TupleValue) v.toTuple()).elems; }
    private static int iv(Value v) { return ((IntValue) v).val; }
    private static BigInteger big(Value v) { return Modulus.big(v); }
    private static BigInteger[] arr(Value v) {
        Value[] e = el(v); BigInteger[] r = new BigInteger[e.length];
        for (int i = 0; i < r.length; i++) r[i] = big(e[i]);
        return r;
    }
    private static Value seq(BigInteger[] r) {
        Value[] o = new Value[r.length];
        for (int i = 0; i < r.length; i++) o[i] = Modulus.limbs(r[i]);
        return new TupleValue(o);
    }
    private static long[] longs(BigInteger[] a, BigInteger m) {
        long[] r = new long[a.length];
        for (int i = 0; i < r.length; i++) r[i] = a[i].mod(m).longValue();
        return r;
    }
    private static BigInteger[] bigs(long[] a) {
        BigInteger[] r = new BigInteger[a.length];
        for (int i = 0; i < r.length; i++) r[i] = BigInteger.valueOf(a[i]);
        return r;
    }
    private static boolean small(BigInteger m) { return m.bitLength() <= 31; }
    interface Op { BigInteger f(BigInteger a, BigInteger b); }
    private static Value map(Value u, Value v, Value m, Op op) {
        BigInteger[] a = arr(u), b = arr(v); BigInteger mm = big(m);
        for (int i = 0; i < a.length; i++) a[i] = op.f(a[i], b[i]).mod(mm);
        return seq(a);
    }
    public static Value PCanon(Value u, Value n, Value m) {
        Value[] e = el(u);
        if (e.length != iv(n)) return BoolValue.ValFalse;
        BigInteger mm = big(m);
        for (Value x : e) {
            Value[] d = el(x);
            for (Value y : d) if (iv(y) < 0 || iv(y) >= 32768) return BoolValue.ValFalse;
            if (d.length > 0 && iv(d[d.length - 1]) == 0) return BoolValue.ValFalse;
            if (big(x).compareTo(mm) >= 0) return BoolValue.ValFalse;
        }
        return BoolValue.ValTrue;
    }
    public static Value PAdd(Value u, Value v, Value m) { return map(u, v, m, (a, b) -> a.add(b)); }
    public static Value PSub(Value u, Value v, Value m) { return map(u, v, m, (a, b) -> a.subtract(b)); }
    public static Value PHad(Value u, Value v, Value m) { return map(u, v, m, (a, b) -> a.multiply(b)); }
    public static Value PNorm(Value u, Value m) { return map(u, u, m, (a, b) -> a); }
    public static Value PScale(Value u, Value s, Value m) {
        BigInteger k = big(s); return map(u, u, m, (a, b) -> a.multiply(k));
    }
    public static Value PMul(Value u, Value v, Value mv) {
        BigInteger m = big(mv), a[] = arr(u), b[] = arr(v); int n = a.length;
        if (small(m)) {
            long mm = m.longValue(), x[] = longs(a, m), y[] = longs(b, m), r[] = new long[n];
            for (int i = 0; i < n; i++) if (x[i] != 0) for (int j = 0; j < n; j++) {
                long p = x[i] * y[j] % mm; int k = i + j;
                if (k >= n) { k -= n; r[k] = r[k] < p ? r[k] - p + mm : r[k] - p; }
                else { r[k] += p; if (r[k] >= mm) r[k] -= mm; }
            }
            return seq(bigs(r));
        }
        BigInteger[] r = new BigInteger[n];
        java.util.Arrays.fill(r, BigInteger.ZERO);
        for (int i = 0; i < n; i++) if (a[i].signum() != 0) for (int j = 0; j < n; j++) {
            BigInteger p = a[i].multiply(b[j]); int k = i + j;
            if (k >= n) r[k - n] = r[k - n].subtract(p); else r[k] = r[k].add(p);
        }
        for (int i = 0; i < n; i++) r[i] = r[i].mod(m);
        return seq(r);
    }
    private static BigInteger eval(BigInteger[] a, BigInteger x, BigInteger m) {
        BigInteger r = BigInteger.ZERO;
        for (int i = a.length - 1; i >= 0; i--) r = r.multiply(x).add(a[i]).mod(m);
        return r;
    }
    private static long evalL(long[] a, long x, long m) {
        long r = 0;
        for (int i = a.length - 1; i >= 0; i--) r = (r * x + a[i]) % m;
        return r;
    }
    public static Value PEval(Value u, Value x, Value m) { return Modulus.limbs(eval(arr(u), big(x), big(m))); }
    /* values at s^(2i+1), i = 0 .. n-1, where s^(2n) = 1 */
    private static BigInteger[] odd(BigInteger[] a, BigInteger s, BigInteger m) {
        int n = a.length;
        if (n == 1) return new BigInteger[] { a[0].mod(m) };
        BigInteger[] e = new BigInteger[n / 2], o = new BigInteger[n / 2], r = new BigInteger[n];
        for (int i = 0; i < n / 2; i++) { e[i] = a[2 * i]; o[i] = a[2 * i + 1]; }
        BigInteger s2 = s.multiply(s).mod(m), p = s;
        e = odd(e, s2, m); o = odd(o, s2, m);
        for (int i = 0; i < n; i++) {
            r[i] = e[i % (n / 2)].add(p.multiply(o[i % (n / 2)])).mod(m);
            p = p.multiply(s2).mod(m);
        }
        return r;
    }
    public static Value PNtt(Value u, Value root, Value kv, Value mv) {
        BigInteger m = big(mv), w = big(root), a[] = arr(u), r[] = new BigInteger[a.length];
        int k = iv(kv); boolean s = small(m); long[] al = s ? longs(a, m) : null;
        BigInteger p = w, w2 = w.multiply(w).mod(m);
        if (a.length >= 16 && w.modPow(BigInteger.valueOf(2L * a.length), m).equals(BigInteger.ONE)) {
            BigInteger[] v = odd(a, w, m);             // the points repeat: evaluate even and odd halves
            for (int i = 0; i < v.length; i++) r[Integer.reverse(i) >>> (32 - k)] = v[i];
            return seq(r);
        }
        for (int i = 0; i < a.length; i++) {           // p = root^(2i+1)
            int pos = k == 0 ? 0 : (Integer.reverse(i) >>> (32 - k));
            r[pos] = s ? BigInteger.valueOf(evalL(al, p.longValue(), m.longValue())) : eval(a, p, m);
            p = p.multiply(w2).mod(m);
        }
        return seq(r);
    }
    public static Value PPowers(Value x, Value cnt, Value mv) {
        BigInteger m = big(mv), b = big(x), p = BigInteger.ONE.mod(m); int n = iv(cnt);
        BigInteger[] r = new BigInteger[n];
        for (int i = 0; i < n; i++) { r[i] = p; p = p.multiply(b).mod(m); }
        return seq(r);
    }
}
