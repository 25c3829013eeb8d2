import java.math.BigInteger;
import tlc2.util.FP64;
import tlc2.value.ValueConstants;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;
import util.Assert;

/** An exact rational number as a TLC value (normal form: coprime, positive denominator). */
public class RatValue extends Value implements ValueConstants {
    final BigInteger n, d;

    RatValue(BigInteger n, BigInteger d) {
        if (d.signum() == 0) Assert.fail("division by zero in BigRat");
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (!d.equals(BigInteger.ONE)) {
            int tz = Math.min(n.signum() == 0 ? d.getLowestSetBit() : n.getLowestSetBit(), d.getLowestSetBit());
            if (tz > 0) { n = n.shiftRight(tz); d = d.shiftRight(tz); }
            if (n.signum() == 0) d = BigInteger.ONE;
            else if (d.bitLength() - 1 != d.getLowestSetBit()) {   // not a power of two
                BigInteger g = n.gcd(d);
                if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
            }
        }
        this.n = n;
        this.d = d;
    }

    static RatValue of(long v) { return new RatValue(BigInteger.valueOf(v), BigInteger.ONE); }

    static RatValue ofDouble(double x) {
        if (Double.isNaN(x) || Double.isInfinite(x)) Assert.fail("not a finite number: " + x);
        if (x == 0) return of(0);
        long bits = Double.doubleToRawLongBits(x);
        int e = (int) ((bits >> 52) & 0x7ff);
        long m = bits & 0xfffffffffffffL;
        if (e == 0) e = 1; else m |= 1L << 52;
        if (bits < 0) m = -m;
        e -= 1075;
        BigInteger b = BigInteger.valueOf(m);
        return e >= 0 ? new RatValue(b.shiftLeft(e), BigInteger.ONE) : new RatValue(b, BigInteger.ONE.shiftLeft(-e));
    }

    RatValue add(RatValue o) {
        if (d.equals(o.d)) return new RatValue(n.add(o.n), d);
        return new RatValue(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d));
    }
    RatValue neg() { return new RatValue(n.negate(), d); }
    RatValue sub(RatValue o) { return add(o.neg()); }
    RatValue mul(RatValue o) { return new RatValue(n.multiply(o.n), d.multiply(o.d)); }
    RatValue div(RatValue o) { return new RatValue(n.multiply(o.d), d.multiply(o.n)); }
    int cmp(RatValue o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }

    double approx() { return new java.math.BigDecimal(n).divide(new java.math.BigDecimal(d), new java.math.MathContext(20)).doubleValue(); }

    public byte getKind() { return (byte) 99; }
    public String getKindString() { return "rational"; }
    public String getTypeString() { return "rational"; }
    public int compareTo(Object o) {
        if (o instanceof RatValue) return cmp((RatValue) o);
        Assert.fail("a rational is compared with " + o);
        return 0;
    }
    public boolean equals(Object o) {
        if (o instanceof RatValue) return n.equals(((RatValue) o).n) && d.equals(((RatValue) o).d);
        Assert.fail("a rational is compared with " + o);
        return false;
    }
    public boolean member(Value v) { Assert.fail("a rational is not a set"); return false; }
    public boolean isFinite() { Assert.fail("a rational is not a set"); return false; }
    public Value takeExcept(ValueExcept e) {
        if (e.idx >= e.path.length) return (Value) e.value;
        Assert.fail("EXCEPT on a rational");
        return null;
    }
    public Value takeExcept(ValueExcept[] e) { Assert.fail("EXCEPT on a rational"); return null; }
    public Value normalize() { return this; }
    public boolean isNormalized() { return true; }
    public int size() { Assert.fail("a rational is not a set"); return 0; }
    public boolean isDefined() { return true; }
    public tlc2.value.IValue deepCopy() { return this; }
    public boolean assignable(Value v) { return v instanceof RatValue && equals(v); }
    public long fingerPrint(long fp) { return FP64.Extend(fp, n + "/" + d); }
    public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
        if (n.bitLength() + d.bitLength() < 60) return sb.append(n).append(d.equals(BigInteger.ONE) ? "" : "/" + d);
        return sb.append("~").append(approx());
    }
}
