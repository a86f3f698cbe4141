import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Implementations of the operators marked (J) in spec/Elem.tla: the same algorithm on scaled integers. */
public class ElemOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override public Class[] get() { return new Class[] { ElemOverrides.class }; }
    static BigInteger num(Value x) { return RatOverrides.num(x); }
    static BigInteger den(Value x) { return RatOverrides.den(x); }
    static Value mk(BigInteger n, BigInteger d) { return RatOverrides.mk(n, d); }
    static BigInteger floor(BigInteger n, BigInteger d) { return RatOverrides.floor(n, d); }

    // ---- Elem.tla: values are multiples of 10^-32, kept as scaled integers ----
    static final BigInteger KK = BigInteger.TEN.pow(32), TWO = BigInteger.TWO, ONE = BigInteger.ONE;
    static BigInteger fx(BigInteger n, BigInteger d) { return floor(n.multiply(KK), d); }
    static BigInteger mulf(BigInteger a, BigInteger b) { return floor(a.multiply(b), KK); }
    static BigInteger divi(BigInteger a, long k) { return floor(a, BigInteger.valueOf(k)); }
    static Value ofx(BigInteger a) { return mk(a, KK); }
    static BigInteger oddSer(BigInteger z, int s) {
        BigInteger z2 = mulf(z, z), p = z, acc = BigInteger.ZERO;
        for (int k = 0; ; k++) {
            BigInteger t = divi(p, 2 * k + 1);
            if (t.signum() == 0 || t.equals(ONE.negate())) return acc;
            acc = s == -1 && k % 2 == 1 ? acc.subtract(t) : acc.add(t);
            p = mulf(p, z2);
        }
    }
    static final BigInteger LN2 = oddSer(fx(ONE, BigInteger.valueOf(3)), 1).multiply(TWO);
    static final BigInteger PI2 = oddSer(fx(ONE, BigInteger.valueOf(5)), -1).multiply(BigInteger.valueOf(16))
        .subtract(oddSer(fx(ONE, BigInteger.valueOf(239)), -1).multiply(BigInteger.valueOf(4))).multiply(TWO);
    @TLAPlusOperator(identifier = "TMul", module = "Elem", warn = false)
    public static Value TMul(Value a, Value b) { return ofx(fx(num(a).multiply(num(b)), den(a).multiply(den(b)))); }
    @TLAPlusOperator(identifier = "TDiv", module = "Elem", warn = false)
    public static Value TDiv(Value a, Value b) {
        BigInteger n = num(a).multiply(den(b)), d = den(a).multiply(num(b));
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        return ofx(fx(n, d)); }
    @TLAPlusOperator(identifier = "RLn", module = "Elem", warn = false)
    public static Value RLn(Value x) {
        BigInteger n = num(x), d = den(x), three = BigInteger.valueOf(3);
        if (n.signum() <= 0) throw new RuntimeException("RLn: argument not positive");
        int k = 0;
        while (n.multiply(three).compareTo(d.shiftLeft(2)) > 0) { d = d.shiftLeft(1); k++; }
        while (n.multiply(three).compareTo(d.shiftLeft(1)) < 0) { n = n.shiftLeft(1); k--; }
        BigInteger z = fx(n.subtract(d), n.add(d));
        return ofx(oddSer(z, 1).multiply(TWO).add(LN2.multiply(BigInteger.valueOf(k)))); }
    @TLAPlusOperator(identifier = "RExp", module = "Elem", warn = false)
    public static Value RExp(Value x) {
        // k = floor(x / Ln2 + 1/2), with Ln2 = LN2 / KK
        BigInteger n = num(x), d = den(x);
        BigInteger k = floor(n.multiply(KK).multiply(TWO).add(d.multiply(LN2)), d.multiply(LN2).multiply(TWO));
        BigInteger r = floor(n.multiply(KK).subtract(k.multiply(LN2).multiply(d)), d);
        BigInteger t = KK, acc = BigInteger.ZERO;
        for (int j = 0; t.abs().compareTo(ONE) > 0; j++) { acc = acc.add(t); t = divi(mulf(t, r), j + 1); }
        int e = k.intValueExact();
        return ofx(e >= 0 ? acc.shiftLeft(e) : floor(acc, ONE.shiftLeft(-e))); }
    @TLAPlusOperator(identifier = "RSqrt", module = "Elem", warn = false)
    public static Value RSqrt(Value x) { return ofx(floor(num(x).multiply(KK).multiply(KK), den(x)).sqrt()); }
    static BigInteger reduce(Value x) {
        BigInteger n = num(x), d = den(x);
        BigInteger k = floor(n.multiply(KK).multiply(TWO).add(d.multiply(PI2)), d.multiply(PI2).multiply(TWO));
        return floor(n.multiply(KK).subtract(k.multiply(PI2).multiply(d)), d); }
    static Value trig(BigInteger t, BigInteger r, long k) {
        BigInteger r2 = mulf(r, r), acc = BigInteger.ZERO;
        for (; t.abs().compareTo(ONE) > 0; k += 2) { acc = acc.add(t); t = divi(mulf(t, r2), (k + 1) * (k + 2)).negate(); }
        return ofx(acc); }
    @TLAPlusOperator(identifier = "RSin", module = "Elem", warn = false)
    public static Value RSin(Value x) { BigInteger r = reduce(x); return trig(r, r, 1); }
    @TLAPlusOperator(identifier = "RCos", module = "Elem", warn = false)
    public static Value RCos(Value x) { return trig(KK, reduce(x), 0); }
    @TLAPlusOperator(identifier = "RSig", module = "Elem", warn = false)
    public static Value RSig(Value x) {
        BigInteger n = num(x), d = den(x);
        if (n.signum() == 0) return x;
        BigInteger a = n.abs(), sn = ONE, sd = ONE;       // s = sn / sd
        int e = (int) Math.floor((a.bitLength() - d.bitLength()) * 0.30103) - 1;
        if (e > 0) sn = BigInteger.TEN.pow(e); else sd = BigInteger.TEN.pow(-e);
        while (a.multiply(sd).compareTo(BigInteger.TEN.multiply(sn).multiply(d)) >= 0)
            if (sd.equals(ONE)) sn = sn.multiply(BigInteger.TEN); else sd = sd.divide(BigInteger.TEN);
        while (a.multiply(sd).compareTo(sn.multiply(d)) < 0)
            if (sn.equals(ONE)) sd = sd.multiply(BigInteger.TEN); else sn = sn.divide(BigInteger.TEN);
        BigInteger k = BigInteger.TEN.pow(80);
        return mk(floor(n.multiply(sd).multiply(k), d.multiply(sn)).multiply(sn), sd.multiply(k)); }
}
