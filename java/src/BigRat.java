import java.math.BigInteger;
import tlc2.value.impl.*;
import util.Assert;
import util.UniqueString;

/** TLC implementation of the operators of module BigRat with unbounded precision. */
public class BigRat {
    static RatValue rat(Value v) {
        if (v instanceof RatValue) return (RatValue) v;
        if (v instanceof IntValue) return RatValue.of(((IntValue) v).val);
        Assert.fail("not a number: " + v);
        return null;
    }
    /** integers that fit are TLC's own integers: one representation per number */
    static Value out(RatValue r) {
        return r.d.equals(BigInteger.ONE) && r.n.bitLength() < 32 ? IntValue.gen(r.n.intValue()) : r;
    }
    static int integer(Value v) {
        if (v instanceof IntValue) return ((IntValue) v).val;
        Assert.fail("not an integer: " + v);
        return 0;
    }
    static Value[] seq(Value v) {
        Value t = v.toTuple();
        if (t == null) Assert.fail("not a sequence: " + v);
        return ((TupleValue) t).elems;
    }
    static double bits(Value v) {
        String s = ((StringValue) v).val.toString();
        return Double.longBitsToDouble(Long.parseUnsignedLong(s, 16));
    }
    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value Rat(Value n, Value d) { return out(rat(n).div(rat(d))); }
    public static Value F64(Value s) { return out(RatValue.ofDouble(bits(s))); }
    public static Value F64Finite(Value s) { double x = bits(s); return bool(!Double.isNaN(x) && !Double.isInfinite(x)); }
    public static Value Add(Value a, Value b) { return out(rat(a).add(rat(b))); }
    public static Value Sub(Value a, Value b) { return out(rat(a).sub(rat(b))); }
    public static Value Mul(Value a, Value b) { return out(rat(a).mul(rat(b))); }
    public static Value Quot(Value a, Value b) { return out(rat(a).div(rat(b))); }
    public static Value Opp(Value a) { return out(rat(a).neg()); }
    public static Value Abs(Value a) { RatValue r = rat(a); return out(r.n.signum() < 0 ? r.neg() : r); }
    public static Value Sign(Value a) { return IntValue.gen(rat(a).n.signum()); }
    public static Value Less(Value a, Value b) { return bool(rat(a).cmp(rat(b)) < 0); }
    public static Value AtMost(Value a, Value b) { return bool(rat(a).cmp(rat(b)) <= 0); }
    public static Value Same(Value a, Value b) { return bool(rat(a).cmp(rat(b)) == 0); }
    public static Value Power(Value a, Value k) {
        RatValue r = rat(a);
        int e = integer(k);
        if (e < 0) { r = RatValue.of(1).div(r); e = -e; }
        return out(new RatValue(r.n.pow(e), r.d.pow(e)));
    }
    public static Value Max2(Value a, Value b) { return rat(a).cmp(rat(b)) >= 0 ? a : b; }
    public static Value Min2(Value a, Value b) { return rat(a).cmp(rat(b)) <= 0 ? a : b; }
    public static Value Total(Value s) {
        RatValue acc = RatValue.of(0);
        for (Value v : seq(s)) acc = acc.add(rat(v));
        return out(acc);
    }
    public static Value Inner(Value s, Value t) {
        Value[] a = seq(s), b = seq(t);
        if (a.length != b.length) Assert.fail("Inner: lengths differ");
        RatValue acc = RatValue.of(0);
        for (int i = 0; i < a.length; i++) acc = acc.add(rat(a[i]).mul(rat(b[i])));
        return out(acc);
    }
    /** polynomial with the given coefficients (constant first) at x */
    public static Value Horner(Value c, Value x) {
        Value[] a = seq(c);
        RatValue acc = RatValue.of(0), y = rat(x);
        for (int i = a.length - 1; i >= 0; i--) acc = acc.mul(y).add(rat(a[i]));
        return out(acc);
    }
    /** nearest multiple of 2^-k, ties towards plus infinity */
    public static Value RoundTo(Value a, Value k) {
        RatValue r = rat(a);
        int e = integer(k);
        BigInteger num = r.n.shiftLeft(e + 1).add(r.d);
        BigInteger den = r.d.shiftLeft(1);
        BigInteger[] qr = num.divideAndRemainder(den);
        BigInteger q = qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
        return out(new RatValue(q, BigInteger.ONE.shiftLeft(e)));
    }
    public static Value Floor(Value a) {
        RatValue r = rat(a);
        BigInteger[] qr = r.n.divideAndRemainder(r.d);
        return out(new RatValue(qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0], BigInteger.ONE));
    }
    public static Value Decimal(Value a) { return new StringValue(String.format("%.6e", rat(a).approx())); }
    /** a decimal literal such as -1.25e-3 (the exact number it denotes) */
    public static Value FromDecimal(Value s) {
        java.math.BigDecimal b;
        try { b = new java.math.BigDecimal(((StringValue) s).val.toString()); }
        catch (NumberFormatException e) { Assert.fail("not a decimal literal: " + s); return null; }
        return b.scale() >= 0 ? new RatValue(b.unscaledValue(), BigInteger.TEN.pow(b.scale()))
                              : new RatValue(b.unscaledValue().multiply(BigInteger.TEN.pow(-b.scale())), BigInteger.ONE);
    }
    public static Value Hex32(Value s) {
        String h = ((StringValue) s).val.toString();
        if (h.length() != 8) return IntValue.gen(-1);
        try { long x = Long.parseLong(h, 16); return IntValue.gen(x <= Integer.MAX_VALUE ? (int) x : -1); }
        catch (NumberFormatException e) { return IntValue.gen(-1); }
    }
    public static Value IsDecimal(Value s) {
        try { new java.math.BigDecimal(((StringValue) s).val.toString()); return bool(true); }
        catch (NumberFormatException e) { return bool(false); }
    }
    /** an integer value as one of TLC's own integers */
    public static Value AsInt(Value a) {
        RatValue r = rat(a);
        if (!r.d.equals(BigInteger.ONE)) Assert.fail("not an integer: " + r);
        return IntValue.gen(r.n.intValueExact());
    }

    /** the symmetric matrix of the entries <<row, column, double>> (rows from 0, each position once, row <= column) */
    public static Value Symmetric(Value size, Value entries) {
        int n = integer(size);
        Value[][] x = new Value[n][n];
        for (Value[] r : x) java.util.Arrays.fill(r, IntValue.gen(0));
        for (Value v : seq(entries)) {
            Value[] e = seq(v);
            int r = integer(e[0]), c = integer(e[1]);
            if (r < 0 || c < 0 || r >= n || c >= n) Assert.fail("entry outside of the matrix");
            x[r][c] = F64(e[2]);
            x[c][r] = x[r][c];
        }
        return matrix(x);
    }
    static Value matrix(Value[][] x) {
        Value[] rows = new Value[x.length];
        for (int r = 0; r < x.length; r++) rows[r] = new TupleValue(x[r]);
        return new TupleValue(rows);
    }
    public static Value Combine(Value a, Value f, Value b) {
        Value[] p = seq(a), q = seq(b);
        RatValue k = rat(f);
        Value[][] x = new Value[p.length][];
        for (int r = 0; r < p.length; r++) {
            Value[] u = seq(p[r]), v = seq(q[r]);
            x[r] = new Value[u.length];
            for (int c = 0; c < u.length; c++) x[r][c] = out(rat(u[c]).add(k.mul(rat(v[c]))));
        }
        return matrix(x);
    }

    // ---------------------------------------------------------------- inertia
    /** <<negative, positive>> eigenvalues of a symmetric matrix; certified fixed-point elimination first, exact elimination if it cannot decide */
    public static Value Inertia(Value m) {
        Value[] rows = seq(m);
        int n = rows.length;
        RatValue[][] a = new RatValue[n][];
        for (int r = 0; r < n; r++) {
            Value[] row = seq(rows[r]);
            if (row.length != n) Assert.fail("not a square matrix");
            a[r] = new RatValue[n];
            for (int c = 0; c < n; c++) a[r][c] = rat(row[c]);
        }
        int[] s = certified(a, n);
        if (s == null) s = exact(a, n);
        return new TupleValue(new Value[] {IntValue.gen(s[0]), IntValue.gen(s[1])});
    }
    static final int P = 320;                 // fixed point: multiples of 2^-P after scaling
    private static double mag(BigInteger x) { return Math.scalb(x.abs().shiftRight(P - 200).doubleValue() + 1, -200); }
    /** LDL' with every entry a midpoint and a bound of its error (in real units); null when a pivot's sign is open */
    static int[] certified(RatValue[][] a, int n) {
        int top = Integer.MIN_VALUE;
        for (RatValue[] r : a) for (RatValue x : r) if (x.n.signum() != 0) top = Math.max(top, x.n.bitLength() - x.d.bitLength() + 1);
        if (top == Integer.MIN_VALUE) return n == 0 ? new int[] {0, 0} : null;
        BigInteger[][] x = new BigInteger[n][n];
        double[][] e = new double[n][n];
        double ulp = Math.scalb(1.0, -P), up = 1 + 1e-9;
        for (int r = 0; r < n; r++) for (int c = r; c < n; c++) {
            RatValue v = a[r][c];
            int sh = P - top;
            BigInteger num = sh >= 0 ? v.n.shiftLeft(sh) : v.n, den = sh >= 0 ? v.d : v.d.shiftLeft(-sh);
            BigInteger[] qr = num.divideAndRemainder(den);
            x[r][c] = qr[0];
            e[r][c] = qr[1].signum() == 0 ? 0 : ulp;
        }
        int neg = 0, pos = 0;
        for (int k = 0; k < n; k++) {
            BigInteger p = x[k][k];
            double pm = p.signum() == 0 ? 0 : (mag(p) - Math.scalb(2.0, -200)), pe = e[k][k];
            if (pm <= 4 * pe || pm < 1e-40) return null;
            double plo = (pm - pe) / up;
            if (p.signum() < 0) neg++; else pos++;
            for (int r = k + 1; r < n; r++) {
                BigInteger f = x[k][r];
                double fe = e[k][r];
                if (f.signum() == 0 && fe == 0) continue;
                double fm = mag(f);
                BigInteger q = f.shiftLeft(P).divide(p);                      // f / p
                double qm = mag(q);
                double qe = (fe + qm * pe) / plo * up + ulp;
                for (int c = r; c < n; c++) {
                    BigInteger g = x[k][c];
                    double ge = e[k][c];
                    if (g.signum() == 0 && ge == 0) continue;
                    x[r][c] = x[r][c].subtract(q.multiply(g).shiftRight(P));
                    e[r][c] = (e[r][c] + qm * ge + qe * mag(g) + qe * ge + 2 * ulp) * up;
                }
            }
        }
        return new int[] {neg, pos};
    }
    /** fraction-free elimination; a zero pivot is passed over when its row is zero, otherwise the answer is open (-1, -1) */
    static int[] exact(RatValue[][] a, int n) {
        BigInteger l = BigInteger.ONE;
        for (RatValue[] r : a) for (RatValue v : r) l = l.divide(l.gcd(v.d)).multiply(v.d);
        BigInteger[][] x = new BigInteger[n][n];
        for (int r = 0; r < n; r++) for (int c = 0; c < n; c++) x[r][c] = a[r][c].n.multiply(l.divide(a[r][c].d));
        BigInteger prev = BigInteger.ONE;
        int neg = 0, pos = 0;
        for (int k = 0; k < n; k++) {
            BigInteger p = x[k][k];
            if (p.signum() == 0) {
                for (int c = k; c < n; c++) if (x[k][c].signum() != 0) return new int[] {-1, -1};
                continue;
            }
            if (p.signum() != prev.signum()) neg++; else pos++;
            for (int r = k + 1; r < n; r++) for (int c = r; c < n; c++)
                x[r][c] = p.multiply(x[r][c]).subtract(x[k][r].multiply(x[k][c])).divide(prev);
            prev = p;
        }
        return new int[] {neg, pos};
    }
}
