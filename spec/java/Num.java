import java.math.BigInteger;
import tlc2.value.IValue;
import tlc2.value.impl.*;

/** TLC module override for Num.tla: the definitions of NumPure.tla, evaluated with BigInteger. */
public class Num {
    static final BigInteger BASE = BigInteger.valueOf(10000);
    static final BigInteger SCALE = BigInteger.TEN.pow(20);
    static final int NAN = 2, INF = 3;

    /** decoded number: kind 2 = NaN, 3/-3 = Inf, 0 = finite (value in v) */
    static final class N {
        final int k; final BigInteger v;
        N(int k, BigInteger v) { this.k = k; this.v = v; }
    }
    static final N NaN_ = new N(2, null), PINF = new N(3, null), NINF = new N(-3, null);
    static final N ZERO = new N(0, BigInteger.ZERO);
    static N fin(BigInteger v) { return new N(0, v); }

    static Value[] elems(Value a) {
        if (a instanceof TupleValue) return ((TupleValue) a).elems;
        Value t = a.toTuple();
        if (t == null) throw new RuntimeException("Num: not a number tuple: " + a);
        return ((TupleValue) t).elems;
    }
    static N dec(Value a) {
        Value[] e = elems(a);
        int s = ((IntValue) e[0]).val;
        if (s == 2) return NaN_;
        if (s == 3) return PINF;
        if (s == -3) return NINF;
        if (s == 0) return ZERO;
        int n = e.length;
        BigInteger v = BigInteger.ZERO;
        int i = n - 1;
        // four limbs at a time
        while (i >= 1) {
            long chunk = 0; long mul = 1; int cnt = 0;
            while (i >= 1 && cnt < 4) { chunk = chunk * 10000 + ((IntValue) e[i]).val; mul *= 10000; i--; cnt++; }
            v = v.multiply(BigInteger.valueOf(mul)).add(BigInteger.valueOf(chunk));
        }
        return fin(s > 0 ? v : v.negate());
    }
    static final BigInteger B16 = BigInteger.valueOf(10000L * 10000L * 10000L * 10000L);
    static final IntValue[] SMALL = new IntValue[10000];
    static { for (int i = 0; i < 10000; i++) SMALL[i] = IntValue.gen(i); }
    static Value enc(N a) {
        if (a.k == 2 || a.k == 3 || a.k == -3) return new TupleValue(new Value[]{IntValue.gen(a.k)});
        int s = a.v.signum();
        if (s == 0) return new TupleValue(new Value[]{IntValue.gen(0)});
        BigInteger m = a.v.abs();
        int[] limbs = new int[(int) (m.bitLength() / 13.28) + 6];
        int n = 0;
        while (m.signum() != 0) {
            BigInteger[] qr = m.divideAndRemainder(B16);
            long r = qr[1].longValue();
            m = qr[0];
            for (int i = 0; i < 4; i++) { limbs[n++] = (int) (r % 10000); r /= 10000; }
        }
        while (n > 0 && limbs[n - 1] == 0) n--;
        Value[] e = new Value[n + 1];
        e[0] = IntValue.gen(s);
        for (int i = 0; i < n; i++) e[i + 1] = SMALL[limbs[i]];
        return new TupleValue(e);
    }
    static int sg(N a) { return a.k == 3 ? 1 : a.k == -3 ? -1 : a.v.signum(); }
    static N neg(N a) { return a.k == 2 ? a : a.k == 3 ? NINF : a.k == -3 ? PINF : fin(a.v.negate()); }
    static N add(N a, N b) {
        if (a.k == 2 || b.k == 2) return NaN_;
        if (a.k != 0) return (b.k != 0 && b.k != a.k) ? NaN_ : a;
        if (b.k != 0) return b;
        return fin(a.v.add(b.v));
    }
    static N mul(N a, N b) {
        if (a.k == 2 || b.k == 2) return NaN_;
        if (a.k != 0 || b.k != 0) {
            int s = sg(a) * sg(b);
            return s == 0 ? NaN_ : s > 0 ? PINF : NINF;
        }
        return fin(a.v.multiply(b.v).divide(SCALE));   // BigInteger.divide truncates toward zero
    }
    static N div(N a, N b) {
        if (a.k == 2 || b.k == 2) return NaN_;
        if (a.k != 0) { if (b.k != 0) return NaN_; return sg(b) < 0 ? neg(a) : a; }
        if (b.k != 0) return ZERO;
        if (b.v.signum() == 0) return a.v.signum() == 0 ? NaN_ : a.v.signum() > 0 ? PINF : NINF;
        return fin(a.v.multiply(SCALE).divide(b.v));
    }
    static int cmp(N a, N b) {
        if (a.k == b.k && (a.k != 0 || a.v.equals(b.v))) return 0;
        if (a.k == 3 || b.k == -3) return 1;
        if (a.k == -3 || b.k == 3) return -1;
        if (a.k == 2 || b.k == 2) return 1;   // NSub gives NaN = <<2>>, whose first component is positive
        return a.v.compareTo(b.v);
    }
    static N nint(long n) { return fin(BigInteger.valueOf(n).multiply(SCALE)); }
    static final N ONE = nint(1), TWO = nint(2);
    static final N LN2 = fin(new BigInteger("69314718055994530942321").divide(BigInteger.valueOf(1000)));

    static N sqrt(N a) {
        if (a.k == 2 || sg(a) < 0) return NaN_;
        if (a.k != 0) return a;
        return fin(a.v.multiply(SCALE).sqrt());
    }
    static N pow2(int k) { N r = ONE; for (int i = 0; i < k; i++) r = mul(TWO, r); return r; }
    static N exp(N a) {
        if (a.k == 2) return NaN_;
        if (a.k == 3) return PINF;
        if (a.k == -3) return ZERO;
        if (cmp(a, nint(-60)) < 0) return ZERO;
        if (cmp(a, nint(700)) > 0) return PINF;
        int k = div(a, LN2).v.divide(SCALE).intValue();
        N y = add(a, neg(mul(nint(k), LN2)));
        N term = ONE, acc = ONE;
        for (int i = 1; term.v.signum() != 0; i++) { term = div(mul(term, y), nint(i)); acc = add(acc, term); }
        return k >= 0 ? mul(acc, pow2(k)) : div(acc, pow2(-k));
    }
    static N ln(N a) {
        if (a.k == 2 || sg(a) < 0) return NaN_;
        if (a.k == 3) return PINF;
        if (a.v.signum() == 0) return NINF;
        int k = 0;
        while (true) {
            if (cmp(a, TWO) >= 0) { a = div(a, TWO); k++; }
            else if (cmp(a, ONE) < 0) { a = mul(a, TWO); k--; }
            else break;
        }
        N z = div(add(a, neg(ONE)), add(a, ONE));
        N z2 = mul(z, z), pw = z, acc = ZERO;
        for (int i = 1; pw.v.signum() != 0; i += 2) { acc = add(acc, div(pw, nint(i))); pw = mul(pw, z2); }
        return add(mul(nint(k), LN2), mul(TWO, acc));
    }

    // ---- the overridden operators ------------------------------------------------
    public static Value NInt(Value n) { return enc(nint(((IntValue) n).val)); }
    public static Value NNeg(Value a) { return enc(neg(dec(a))); }
    public static Value NAbs(Value a) { N x = dec(a); return enc(x.k == 2 ? x : sg(x) < 0 ? neg(x) : x); }
    public static Value NAdd(Value a, Value b) { return enc(add(dec(a), dec(b))); }
    public static Value NSub(Value a, Value b) { return enc(add(dec(a), neg(dec(b)))); }
    public static Value NMul(Value a, Value b) { return enc(mul(dec(a), dec(b))); }
    public static Value NDiv(Value a, Value b) { return enc(div(dec(a), dec(b))); }
    public static Value NCmp(Value a, Value b) { return IntValue.gen(cmp(dec(a), dec(b))); }
    public static Value NSqrt(Value a) { return enc(sqrt(dec(a))); }
    public static Value NExp(Value a) { return enc(exp(dec(a))); }
    public static Value NLn(Value a) { return enc(ln(dec(a))); }
    public static Value NTrunc(Value a) { return IntValue.gen(dec(a).v.divide(SCALE).intValue()); }
    public static Value NClose(Value x, Value y, Value tol) {
        N a = dec(x), b = dec(y);
        boolean r;
        if (a.k == 2 || b.k == 2) r = a.k == 2 && b.k == 2;
        else if (a.k != 0 || b.k != 0) r = a.k == b.k;
        else {
            BigInteger m = a.v.abs().max(b.v.abs());
            r = a.v.subtract(b.v).abs().compareTo(mul(dec(tol), fin(SCALE.add(m))).v) <= 0;
        }
        return r ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value NSum(Value s) {
        N acc = ZERO;
        for (Value v : elems(s)) acc = add(acc, dec(v));
        return enc(acc);
    }
    public static Value DropNaN(Value s) {
        java.util.ArrayList<Value> out = new java.util.ArrayList<>();
        for (Value v : elems(s)) if (((IntValue) elems(v)[0]).val != 2) out.add(v);
        return new TupleValue(out.toArray(new Value[0]));
    }
}
