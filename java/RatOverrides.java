import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** BigInteger implementations of the operators marked (J) in spec/Rat.tla,
 *  on exactly the same value representation. */
public class RatOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override public Class[] get() { return new Class[] { RatOverrides.class }; }

    static final BigInteger BASE = BigInteger.valueOf(10000);

    /** Tuple value that remembers the number it denotes. */
    static final class BigV extends TupleValue {
        final BigInteger v;
        BigV(BigInteger v) { super(enc(v)); this.v = v; }
    }
    static final class RatV extends TupleValue {
        final BigInteger n, d;
        RatV(BigInteger n, BigInteger d) { super(new Value[] { new BigV(n), new BigV(d) }); this.n = n; this.d = d; }
    }
    static Value[] enc(BigInteger v) {
        int s = v.signum();
        if (s == 0) return new Value[] { IntValue.gen(0) };
        java.util.ArrayList<Value> l = new java.util.ArrayList<>(8);
        l.add(IntValue.gen(s));
        BigInteger m = v.abs();
        while (m.bitLength() > 62) {
            BigInteger[] qr = m.divideAndRemainder(BIG16);
            long r = qr[1].longValue();
            for (int i = 0; i < 4; i++) { l.add(IntValue.gen((int) (r % 10000))); r /= 10000; }
            m = qr[0];
        }
        long r = m.longValue();
        while (r != 0) { l.add(IntValue.gen((int) (r % 10000))); r /= 10000; }
        return l.toArray(new Value[0]);
    }
    static final BigInteger BIG16 = BigInteger.TEN.pow(16);

    static BigInteger big(Value x) {
        if (x instanceof BigV) return ((BigV) x).v;
        Value[] e = ((TupleValue) x.toTuple()).elems;
        BigInteger m = BigInteger.ZERO;
        for (int i = e.length - 1; i >= 1; i--)
            m = m.multiply(BASE).add(BigInteger.valueOf(((IntValue) e[i]).val));
        int s = ((IntValue) e[0]).val;
        return s < 0 ? m.negate() : m;
    }
    static BigInteger num(Value x) { return x instanceof RatV ? ((RatV) x).n : big(((TupleValue) x.toTuple()).elems[0]); }
    static BigInteger den(Value x) { return x instanceof RatV ? ((RatV) x).d : big(((TupleValue) x.toTuple()).elems[1]); }

    static Value mk(BigInteger n, BigInteger d) {
        if (d.signum() == 0) throw new RuntimeException("Rat: zero denominator");
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (n.signum() == 0) d = BigInteger.ONE;
        else if (!d.equals(BigInteger.ONE)) {
            BigInteger g = n.gcd(d);
            if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
        }
        return new RatV(n, d);
    }
    static BigInteger floor(BigInteger n, BigInteger d) {
        BigInteger[] qr = n.divideAndRemainder(d);
        return qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
    }

    @TLAPlusOperator(identifier = "BAdd", module = "Rat", warn = false)
    public static Value BAdd(Value a, Value b) { return new BigV(big(a).add(big(b))); }
    @TLAPlusOperator(identifier = "BMul", module = "Rat", warn = false)
    public static Value BMul(Value a, Value b) { return new BigV(big(a).multiply(big(b))); }
    @TLAPlusOperator(identifier = "BCmp", module = "Rat", warn = false)
    public static Value BCmp(Value a, Value b) { return IntValue.gen(big(a).compareTo(big(b))); }
    @TLAPlusOperator(identifier = "BQuo", module = "Rat", warn = false)
    public static Value BQuo(Value a, Value b) { return new BigV(big(a).divide(big(b))); }
    @TLAPlusOperator(identifier = "RMk", module = "Rat", warn = false)
    public static Value RMk(Value a, Value b) { return mk(big(a), big(b)); }
    @TLAPlusOperator(identifier = "I", module = "Rat", warn = false)
    public static Value I(Value a) { return new RatV(BigInteger.valueOf(((IntValue) a).val), BigInteger.ONE); }
    @TLAPlusOperator(identifier = "Q", module = "Rat", warn = false)
    public static Value Q(Value a, Value b) {
        return mk(BigInteger.valueOf(((IntValue) a).val), BigInteger.valueOf(((IntValue) b).val)); }
    @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
    public static Value RAdd(Value a, Value b) {
        BigInteger da = den(a), db = den(b);
        if (da.equals(db)) return mk(num(a).add(num(b)), da);
        return mk(num(a).multiply(db).add(num(b).multiply(da)), da.multiply(db)); }
    @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
    public static Value RSub(Value a, Value b) {
        BigInteger da = den(a), db = den(b);
        if (da.equals(db)) return mk(num(a).subtract(num(b)), da);
        return mk(num(a).multiply(db).subtract(num(b).multiply(da)), da.multiply(db)); }
    @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
    public static Value RMul(Value a, Value b) { return mk(num(a).multiply(num(b)), den(a).multiply(den(b))); }
    @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
    public static Value RDiv(Value a, Value b) { return mk(num(a).multiply(den(b)), den(a).multiply(num(b))); }
    @TLAPlusOperator(identifier = "RCmp", module = "Rat", warn = false)
    public static Value RCmp(Value a, Value b) {
        return IntValue.gen(num(a).multiply(den(b)).compareTo(num(b).multiply(den(a)))); }
    @TLAPlusOperator(identifier = "RNeg", module = "Rat", warn = false)
    public static Value RNeg(Value a) { return new RatV(num(a).negate(), den(a)); }
    @TLAPlusOperator(identifier = "RAbs", module = "Rat", warn = false)
    public static Value RAbs(Value a) { return new RatV(num(a).abs(), den(a)); }
    @TLAPlusOperator(identifier = "RFloor", module = "Rat", warn = false)
    public static Value RFloor(Value a) { return new RatV(floor(num(a), den(a)), BigInteger.ONE); }
    @TLAPlusOperator(identifier = "RToInt", module = "Rat", warn = false)
    public static Value RToInt(Value a) { return IntValue.gen(num(a).intValueExact()); }
    @TLAPlusOperator(identifier = "RTrunc", module = "Rat", warn = false)
    public static Value RTrunc(Value a, Value k) {
        BigInteger kk = num(k);
        return mk(floor(num(a).multiply(kk), den(a).multiply(den(k))).multiply(den(k)), kk); }
    @TLAPlusOperator(identifier = "RScan", module = "Rat", warn = false)
    public static Value RScan(Value x) {
        Value[] e = ((TupleValue) x.toTuple()).elems, r = new Value[e.length + 1];
        r[0] = new RatV(BigInteger.ZERO, BigInteger.ONE);
        for (int i = 0; i < e.length; i++) r[i + 1] = RAdd(r[i], e[i]);
        return new TupleValue(r);
    }
    @TLAPlusOperator(identifier = "RPow", module = "Rat", warn = false)
    public static Value RPow(Value a, Value k) {
        int e = ((IntValue) k).val;
        return e >= 0 ? mk(num(a).pow(e), den(a).pow(e)) : mk(den(a).pow(-e), num(a).pow(-e)); }
}
