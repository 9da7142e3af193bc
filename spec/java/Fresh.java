// Java equivalents of operators of Fresh.tla (compared with them by MC_Fresh.tla).
import tlc2.value.impl.*;

public class Fresh {
    public static Value Tally(Value x, Value n) {
        Value[] e = ((TupleValue) x.toTuple()).elems;
        int[] c = new int[((IntValue) n).val];
        for (Value v : e) { int i = ((IntValue) v).val; if (i >= 1 && i <= c.length) c[i - 1]++; }
        Value[] r = new Value[c.length];
        for (int i = 0; i < r.length; i++) r[i] = IntValue.gen(c[i]);
        return new TupleValue(r);
    }

    public static Value Extremes(Value x, Value kk, Value ll, Value mm) {
        int k = ((IntValue) kk).val, l = ((IntValue) ll).val, m = ((IntValue) mm).val;
        Value[] rows = ((TupleValue) x.toTuple()).elems;
        int[][] v = new int[l][k];
        for (int i = 0; i < k; i++) {
            Value[] e = ((TupleValue) rows[i].toTuple()).elems;
            for (int p = 0; p < l; p++) v[p][i] = ((IntValue) e[p]).val;
        }
        int maxE = -1, minE = Integer.MAX_VALUE, maxN = -1, minN = Integer.MAX_VALUE;
        for (int p = 0; p < l; p++) for (int q = p + 1; q < l; q++) {
            int e = 0, n = 0;
            int[] a = v[p], b = v[q];
            for (int i = 0; i < k; i++) {
                if (a[i] == b[i]) e++;
                long t = (long) a[i] + b[i];
                if (m == 0 ? t == 0 : t % m == 0) n++;
            }
            maxE = Math.max(maxE, e); minE = Math.min(minE, e);
            maxN = Math.max(maxN, n); minN = Math.min(minN, n);
        }
        return new TupleValue(new Value[]{IntValue.gen(maxE), IntValue.gen(minE), IntValue.gen(maxN), IntValue.gen(minN)});
    }
}
