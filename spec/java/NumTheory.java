// Java equivalents of some operators of NumTheory.tla (compared with them by MC_NumTheory).
import java.math.BigInteger;
import tlc2.value.impl.*;

public class NumTheory {
    private static BigInteger big(Value v) { return Modulus.big(v); }
    public static Value BGcd(Value x, Value y) { return Modulus.limbs(big(x).gcd(big(y))); }
    private static final int[] BASES = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37};
    public static Value BIsPrime(Value v) {
        BigInteger n = big(v), one = BigInteger.ONE, m1 = n.subtract(one);
        if (n.bitLength() < 2) return BoolValue.ValFalse;
        for (int a : BASES) {
            BigInteger b = BigInteger.valueOf(a);
            if (n.equals(b)) return BoolValue.ValTrue;
            if (n.mod(b).signum() == 0) return BoolValue.ValFalse;
        }
        int s = m1.getLowestSetBit();
        BigInteger q = m1.shiftRight(s);
        for (int a : BASES) {
            BigInteger x = BigInteger.valueOf(a).modPow(q, n);
            boolean ok = x.equals(one) || x.equals(m1);
            for (int i = 1; i < s && !ok; i++) { x = x.multiply(x).mod(n); ok = x.equals(m1); }
            if (!ok) return BoolValue.ValFalse;
        }
        return BoolValue.ValTrue;
    }
    public static Value MinRoot(Value r, Value half, Value m) {
        BigInteger c = big(r), mm = big(m), sq = c.multiply(c).mod(mm), best = c;
        int h = ((IntValue) half).val;
        for (int i = 0; i < h; i++) { if (c.compareTo(best) < 0) best = c; c = c.multiply(sq).mod(mm); }
        return Modulus.limbs(best);
    }
}
