import java.math.BigDecimal;
import java.math.MathContext;
import java.math.RoundingMode;

import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;

/** A complex number carried with MC.precision significant digits per component. */
public final class CNumValue extends Value {
    public static final MathContext MC = new MathContext(42, RoundingMode.HALF_EVEN);
    static final BigDecimal ZERO = BigDecimal.ZERO;

    final BigDecimal re, im;   // null re means "not a number" (an infinity or NaN printed by the code)
    final String bad;

    public CNumValue(BigDecimal re, BigDecimal im) { this.re = re; this.im = im; this.bad = null; }
    public CNumValue(BigDecimal re) { this(re, ZERO); }
    public CNumValue(String bad) { this.re = null; this.im = null; this.bad = bad; }

    boolean isBad() { return bad != null; }
    boolean isReal() { return im.signum() == 0; }

    static CNumValue of(Value v) {
        if (v instanceof CNumValue) return (CNumValue) v;
        if (v instanceof IntValue) return new CNumValue(BigDecimal.valueOf(((IntValue) v).val));
        if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
        throw new RuntimeException("not a number: " + v);
    }

    static CNumValue parse(String s) {
        String t = s.trim();
        String l = t.toLowerCase();
        if (l.contains("nan") || l.contains("inf")) return new CNumValue(l);
        return new CNumValue(new BigDecimal(t));
    }

    private Error no(String what) { return new Error("CNum does not support " + what); }
    @Override public byte getKind() { return USERVALUE; }
    @Override public boolean member(Value v) { throw no("member"); }
    @Override public Value takeExcept(ValueExcept e) { if (e.idx < e.path.length) throw no("EXCEPT"); return e.value; }
    @Override public Value takeExcept(ValueExcept[] e) { Value r = this; for (ValueExcept x : e) r = r.takeExcept(x); return r; }
    @Override public Value normalize() { return this; }
    @Override public boolean isNormalized() { return true; }
    @Override public boolean isFinite() { return true; }
    @Override public int size() { return 1; }
    @Override public boolean isDefined() { return true; }
    @Override public IValue deepCopy() { return this; }
    @Override public boolean mutates() { return false; }
    @Override public IValue permute(IMVPerm p) { return this; }
    @Override public long fingerPrint(long fp) { return FP64.Extend(fp, text()); }
    String text() {
        if (isBad()) return bad;
        return re.stripTrailingZeros().toString() + (isReal() ? "" : "+i*" + im.stripTrailingZeros().toString());
    }
    @Override public int compareTo(Object o) {
        if (o instanceof IntValue) o = of((Value) o);
        if (!(o instanceof CNumValue)) return -1;
        CNumValue c = (CNumValue) o;
        if (isBad() || c.isBad()) return text().compareTo(c.text());
        int r = re.compareTo(c.re);
        return r != 0 ? r : im.compareTo(c.im);
    }
    @Override public boolean equals(Object o) { return compareTo(o) == 0; }
    @Override public StringBuffer toString(StringBuffer sb, int off, boolean swallow) { return sb.append('"').append(text()).append('"'); }
}
