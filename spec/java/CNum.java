import java.math.BigDecimal;
import java.math.MathContext;
import java.math.RoundingMode;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;

/** Evaluation of the operators of CNum.tla. */
public final class CNum {
    static final MathContext MC = CNumValue.MC;
    static final BigDecimal ZERO = BigDecimal.ZERO, ONE = BigDecimal.ONE, TWO = BigDecimal.valueOf(2);

    private static Value lift(long v, Value a, Value b, char op) {
        if (v >= Integer.MIN_VALUE && v <= Integer.MAX_VALUE) return IntValue.gen((int) v);
        return new CNumValue(BigDecimal.valueOf(v));
    }
    private static CNumValue c(Value v) { return CNumValue.of(v); }
    private static CNumValue nan() { return new CNumValue("nan"); }

    @TLAPlusOperator(identifier = "CAdd", module = "CNum", warn = false)
    public static Value add(Value a, Value b) {
        if (a instanceof IntValue && b instanceof IntValue) return lift((long) ((IntValue) a).val + ((IntValue) b).val, a, b, '+');
        CNumValue x = c(a), y = c(b);
        if (x.isBad() || y.isBad()) return nan();
        return new CNumValue(x.re.add(y.re, MC), x.im.add(y.im, MC));
    }
    @TLAPlusOperator(identifier = "CSub", module = "CNum", warn = false)
    public static Value sub(Value a, Value b) {
        if (a instanceof IntValue && b instanceof IntValue) return lift((long) ((IntValue) a).val - ((IntValue) b).val, a, b, '-');
        CNumValue x = c(a), y = c(b);
        if (x.isBad() || y.isBad()) return nan();
        return new CNumValue(x.re.subtract(y.re, MC), x.im.subtract(y.im, MC));
    }
    @TLAPlusOperator(identifier = "CMul", module = "CNum", warn = false)
    public static Value mul(Value a, Value b) {
        if (a instanceof IntValue && b instanceof IntValue) return lift((long) ((IntValue) a).val * ((IntValue) b).val, a, b, '*');
        return mulc(c(a), c(b));
    }
    static CNumValue mulc(CNumValue x, CNumValue y) {
        if (x.isBad() || y.isBad()) return nan();
        if (x.isReal()) {
            if (y.isReal()) return new CNumValue(x.re.multiply(y.re, MC));
            return new CNumValue(x.re.multiply(y.re, MC), x.re.multiply(y.im, MC));
        }
        if (y.isReal()) return new CNumValue(x.re.multiply(y.re, MC), x.im.multiply(y.re, MC));
        return new CNumValue(x.re.multiply(y.re, MC).subtract(x.im.multiply(y.im, MC), MC),
                             x.re.multiply(y.im, MC).add(x.im.multiply(y.re, MC), MC));
    }
    @TLAPlusOperator(identifier = "CDiv", module = "CNum", warn = false)
    public static Value div(Value a, Value b) {
        CNumValue x = c(a), y = c(b);
        if (x.isBad() || y.isBad()) return nan();
        if (y.re.signum() == 0 && y.im.signum() == 0) return nan();
        if (y.isReal()) return new CNumValue(x.re.divide(y.re, MC), x.im.divide(y.re, MC));
        BigDecimal n = y.re.multiply(y.re, MC).add(y.im.multiply(y.im, MC), MC);
        CNumValue t = mulc(x, new CNumValue(y.re, y.im.negate()));
        return new CNumValue(t.re.divide(n, MC), t.im.divide(n, MC));
    }
    @TLAPlusOperator(identifier = "CNeg", module = "CNum", warn = false)
    public static Value neg(Value a) {
        if (a instanceof IntValue) return IntValue.gen(-((IntValue) a).val);
        CNumValue x = c(a);
        return x.isBad() ? nan() : new CNumValue(x.re.negate(), x.im.negate());
    }
    @TLAPlusOperator(identifier = "Conj", module = "CNum", warn = false)
    public static Value conj(Value a) {
        if (a instanceof IntValue) return a;
        CNumValue x = c(a);
        return x.isBad() ? nan() : new CNumValue(x.re, x.im.negate());
    }
    @TLAPlusOperator(identifier = "Cx", module = "CNum", warn = false)
    public static Value cx(Value a, Value b) {
        CNumValue x = c(a), y = c(b);
        if (x.isBad() || y.isBad()) return nan();
        return new CNumValue(x.re, y.re);
    }
    @TLAPlusOperator(identifier = "Re", module = "CNum", warn = false)
    public static Value re(Value a) { CNumValue x = c(a); return x.isBad() ? nan() : new CNumValue(x.re); }
    @TLAPlusOperator(identifier = "Im", module = "CNum", warn = false)
    public static Value im(Value a) { CNumValue x = c(a); return x.isBad() ? nan() : new CNumValue(x.im); }
    @TLAPlusOperator(identifier = "Num", module = "CNum", warn = false)
    public static Value num(Value a) { return c(a); }
    @TLAPlusOperator(identifier = "IsNum", module = "CNum", warn = false)
    public static Value isNum(Value a) { return c(a).isBad() ? BoolValue.ValFalse : BoolValue.ValTrue; }

    @TLAPlusOperator(identifier = "AbsSq", module = "CNum", warn = false)
    public static Value absSq(Value a) {
        CNumValue x = c(a);
        if (x.isBad()) return nan();
        if (x.isReal()) return new CNumValue(x.re.multiply(x.re, MC));
        return new CNumValue(x.re.multiply(x.re, MC).add(x.im.multiply(x.im, MC), MC));
    }
    /** Square root of a non-negative real. */
    @TLAPlusOperator(identifier = "Sqrt", module = "CNum", warn = false)
    public static Value sqrt(Value a) {
        CNumValue x = c(a);
        if (x.isBad() || !x.isReal() || x.re.signum() < 0) return nan();
        return new CNumValue(x.re.sqrt(MC));
    }
    private static final BigDecimal TWOPI = new BigDecimal("6.28318530717958647692528676655900576839433879875021164194988918461563281");
    private static BigDecimal sinSeries(BigDecimal t, boolean cos) {
        MathContext mc = new MathContext(MC.getPrecision() + 10);
        BigDecimal n = t.divide(TWOPI, new MathContext(70)).setScale(0, RoundingMode.HALF_EVEN);
        BigDecimal x = t.subtract(n.multiply(TWOPI));
        BigDecimal x2 = x.multiply(x, mc), term = cos ? ONE : x, sum = term;
        for (int k = 1; k < 80; k++) {
            int d = cos ? (2 * k - 1) * (2 * k) : (2 * k) * (2 * k + 1);
            term = term.multiply(x2, mc).divide(BigDecimal.valueOf(-d), mc);
            sum = sum.add(term, mc);
            if (term.signum() == 0 || term.abs().compareTo(new BigDecimal("1e-60")) < 0) break;
        }
        return sum.setScale(MC.getPrecision(), RoundingMode.HALF_EVEN);
    }
    @TLAPlusOperator(identifier = "Sin", module = "CNum", warn = false)
    public static Value sin(Value a) { CNumValue x = c(a); return x.isBad() ? nan() : new CNumValue(sinSeries(x.re, false)); }
    @TLAPlusOperator(identifier = "Cos", module = "CNum", warn = false)
    public static Value cos(Value a) { CNumValue x = c(a); return x.isBad() ? nan() : new CNumValue(sinSeries(x.re, true)); }

    /** Order of two reals; a bad number is not ordered against anything. */
    @TLAPlusOperator(identifier = "Less", module = "CNum", warn = false)
    public static Value less(Value a, Value b) {
        CNumValue x = c(a), y = c(b);
        if (x.isBad() || y.isBad()) return BoolValue.ValFalse;
        return x.re.compareTo(y.re) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    @TLAPlusOperator(identifier = "Leq", module = "CNum", warn = false)
    public static Value leq(Value a, Value b) {
        CNumValue x = c(a), y = c(b);
        if (x.isBad() || y.isBad()) return BoolValue.ValFalse;
        return x.re.compareTo(y.re) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    @TLAPlusOperator(identifier = "SameNum", module = "CNum", warn = false)
    public static Value same(Value a, Value b) {
        CNumValue x = c(a), y = c(b);
        if (x.isBad() || y.isBad()) return BoolValue.ValFalse;
        return x.re.compareTo(y.re) == 0 && x.im.compareTo(y.im) == 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    /** |a-b| <= tol*scale, all arguments numbers; false if any is not a number. */
    @TLAPlusOperator(identifier = "Close", module = "CNum", warn = false)
    public static Value close(Value a, Value b, Value scale, Value tol) {
        CNumValue x = c(a), y = c(b), s = c(scale), t = c(tol);
        if (x.isBad() || y.isBad() || s.isBad() || t.isBad()) return BoolValue.ValFalse;
        BigDecimal dr = x.re.subtract(y.re, MC), di = x.im.subtract(y.im, MC);
        BigDecimal d2 = dr.multiply(dr, MC).add(di.multiply(di, MC), MC);
        BigDecimal l = s.re.multiply(t.re, MC);
        return d2.compareTo(l.multiply(l, MC)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    /** Decimal text with the given number of significant digits, e.g. for handing a value to the code. */
    @TLAPlusOperator(identifier = "Dec", module = "CNum", warn = false)
    public static Value dec(Value a, Value digits) {
        CNumValue x = c(a);
        if (x.isBad()) return new StringValue(x.bad);
        return new StringValue(x.re.round(new MathContext(((IntValue) digits).val, RoundingMode.HALF_EVEN)).toString());
    }

    /** A number in (0,1) determined by the key: the source of every random choice of the generators. */
    @TLAPlusOperator(identifier = "Rnd", module = "CNum", warn = false)
    public static Value rnd(Value key) {
        return new CNumValue(new BigDecimal(bits(key).add(java.math.BigInteger.ONE)).divide(new BigDecimal(SPAN), MC).round(new MathContext(12)));
    }
    /** An integer in 1..n determined by the key. */
    @TLAPlusOperator(identifier = "RndInt", module = "CNum", warn = false)
    public static Value rndInt(Value key, Value n) {
        return IntValue.gen(bits(key).mod(java.math.BigInteger.valueOf(((IntValue) n).val)).intValue() + 1);
    }
    private static final java.math.BigInteger SPAN = java.math.BigInteger.ONE.shiftLeft(64).add(java.math.BigInteger.ONE);
    private static java.math.BigInteger bits(Value key) {
        try {
            byte[] h = java.security.MessageDigest.getInstance("SHA-256").digest(key.toString().getBytes("UTF-8"));
            return new java.math.BigInteger(1, java.util.Arrays.copyOf(h, 8));
        } catch (java.security.NoSuchAlgorithmException | java.io.UnsupportedEncodingException e) { throw new RuntimeException(e); }
    }
}
