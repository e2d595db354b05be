import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.*;

/** Java override of the operators of module BigReal: decimals of 45 significant digits. */
public class BigReal {
    static final MathContext MC = new MathContext(45, RoundingMode.HALF_EVEN);
    static final BigDecimal TWO = BigDecimal.valueOf(2);
    static final BigDecimal PI = new BigDecimal("3.14159265358979323846264338327950288419716939937510582097494459");

    static final class Num extends UserObj {
        final BigDecimal v;  // null: not a number
        Num(BigDecimal v) { this.v = v; }
        @Override public int compareTo(Value o) {
            BigDecimal w = get(o);
            if (v == null || w == null) return v == w ? 0 : (v == null ? -1 : 1);
            return v.compareTo(w);
        }
        @Override public boolean member(Value x) { return false; }
        @Override public boolean isFinite() { return true; }
        @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
            return sb.append(v == null ? "NaN" : v.round(new MathContext(20)).toString());
        }
    }

    static Value mk(BigDecimal d) { return new UserValue(new Num(d == null ? null : d.round(MC))); }

    static BigDecimal get(Object o) {
        if (o instanceof UserValue) return ((Num) ((UserValue) o).userObj).v;
        if (o instanceof IntValue) return BigDecimal.valueOf(((IntValue) o).val);
        if (o instanceof StringValue) {
            String s = ((StringValue) o).val.toString();
            try { return new BigDecimal(s.trim()); } catch (NumberFormatException e) { return null; }
        }
        if (o instanceof LazyValue || o instanceof Value) {
            throw new RuntimeException("BigReal: not a number: " + o);
        }
        return null;
    }
    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static Value[] elems(Value s) {
        Value t = (Value) s.toTuple();
        if (t == null) throw new RuntimeException("BigReal: not a sequence: " + s);
        return ((TupleValue) t).elems;
    }

    public static Value RReal(Value x) { return mk(get(x)); }
    public static Value RFinite(Value x) { return bool(get(x) != null); }
    public static Value RAdd(Value x, Value y) { BigDecimal a = get(x), b = get(y); return mk(a == null || b == null ? null : a.add(b, MC)); }
    public static Value RSub(Value x, Value y) { BigDecimal a = get(x), b = get(y); return mk(a == null || b == null ? null : a.subtract(b, MC)); }
    public static Value RMul(Value x, Value y) { BigDecimal a = get(x), b = get(y); return mk(a == null || b == null ? null : a.multiply(b, MC)); }
    public static Value RDiv(Value x, Value y) { BigDecimal a = get(x), b = get(y); return mk(a == null || b == null || b.signum() == 0 ? null : a.divide(b, MC)); }
    public static Value RNeg(Value x) { BigDecimal a = get(x); return mk(a == null ? null : a.negate()); }
    public static Value RAbs(Value x) { BigDecimal a = get(x); return mk(a == null ? null : a.abs()); }
    public static Value RLeq(Value x, Value y) { BigDecimal a = get(x), b = get(y); return bool(a != null && b != null && a.compareTo(b) <= 0); }
    public static Value RLt(Value x, Value y) { BigDecimal a = get(x), b = get(y); return bool(a != null && b != null && a.compareTo(b) < 0); }
    public static Value REq(Value x, Value y) { BigDecimal a = get(x), b = get(y); return bool(a != null && b != null && a.compareTo(b) == 0); }
    public static Value RSqrt(Value x) { BigDecimal a = get(x); return mk(a == null || a.signum() < 0 ? null : a.sqrt(MC)); }
    public static Value RMax(Value x, Value y) { BigDecimal a = get(x), b = get(y); return mk(a == null || b == null ? null : a.max(b)); }
    public static Value RMin(Value x, Value y) { BigDecimal a = get(x), b = get(y); return mk(a == null || b == null ? null : a.min(b)); }
    public static Value RPi(Value x) { BigDecimal a = get(x); return mk(a == null ? null : PI.multiply(a, MC)); }
    public static Value RFloor(Value x) {
        BigDecimal a = get(x);
        if (a == null) return IntValue.gen(Integer.MIN_VALUE);
        BigInteger f = a.setScale(0, RoundingMode.FLOOR).toBigInteger();
        if (f.bitLength() > 31) return IntValue.gen(f.signum() < 0 ? Integer.MIN_VALUE : Integer.MAX_VALUE);
        return IntValue.gen(f.intValueExact());
    }
    public static Value RTrunc(Value x) { BigDecimal a = get(x); return mk(a == null ? null : a.setScale(0, RoundingMode.DOWN)); }
    public static Value RStr(Value x) { BigDecimal a = get(x); return new StringValue(a == null ? "nan" : a.round(new MathContext(20)).toString()); }
    public static Value RNear(Value x, Value y, Value tol) {
        BigDecimal a = get(x), b = get(y), t = get(tol);
        return bool(a != null && b != null && a.subtract(b).abs().compareTo(t.multiply(BigDecimal.ONE.add(b.abs()))) <= 0);
    }

    static BigDecimal reduce(BigDecimal a) {  // into [-pi, pi]
        BigDecimal tp = PI.multiply(TWO);
        BigDecimal k = a.divide(tp, 0, RoundingMode.HALF_EVEN);
        return a.subtract(k.multiply(tp));
    }
    static BigDecimal sin(BigDecimal a) {
        MathContext m = new MathContext(55);
        a = reduce(a);
        BigDecimal term = a, sum = a, a2 = a.multiply(a, m);
        for (int n = 1; n < 80; ++n) {
            term = term.multiply(a2, m).divide(BigDecimal.valueOf((long) (2 * n) * (2 * n + 1)), m).negate();
            sum = sum.add(term, m);
            if (term.signum() == 0 || term.abs().compareTo(new BigDecimal("1e-60")) < 0) break;
        }
        return sum;
    }
    static BigDecimal cos(BigDecimal a) {
        MathContext m = new MathContext(55);
        a = reduce(a);
        BigDecimal term = BigDecimal.ONE, sum = term, a2 = a.multiply(a, m);
        for (int n = 1; n < 80; ++n) {
            term = term.multiply(a2, m).divide(BigDecimal.valueOf((long) (2 * n - 1) * (2 * n)), m).negate();
            sum = sum.add(term, m);
            if (term.signum() == 0 || term.abs().compareTo(new BigDecimal("1e-60")) < 0) break;
        }
        return sum;
    }
    static BigDecimal atan2(BigDecimal y, BigDecimal x) {
        if (x.signum() == 0 && y.signum() == 0) return null;
        MathContext m = new MathContext(55);
        // normalise, start from the double estimate, refine by Newton: a += (y cos a - x sin a) / h
        BigDecimal h = x.multiply(x, m).add(y.multiply(y, m), m).sqrt(m);
        x = x.divide(h, m);
        y = y.divide(h, m);
        BigDecimal a = new BigDecimal(Math.atan2(y.doubleValue(), x.doubleValue()));
        for (int i = 0; i < 3; ++i) a = a.add(y.multiply(cos(a), m).subtract(x.multiply(sin(a), m), m), m);
        return a;
    }
    public static Value RSin(Value x) { BigDecimal a = get(x); return mk(a == null ? null : sin(a)); }
    public static Value RCos(Value x) { BigDecimal a = get(x); return mk(a == null ? null : cos(a)); }
    public static Value RAtan2(Value y, Value x) { BigDecimal a = get(y), b = get(x); return mk(a == null || b == null ? null : atan2(a, b)); }
    public static Value RAcos(Value x) {
        BigDecimal a = get(x);
        if (a == null || a.abs().compareTo(BigDecimal.ONE) > 0) return mk(null);
        return mk(atan2(BigDecimal.ONE.subtract(a.multiply(a)).sqrt(MC), a));
    }

    public static Value RSum(Value s) {
        BigDecimal t = BigDecimal.ZERO;
        for (Value e : elems(s)) { BigDecimal a = get(e); if (a == null) return mk(null); t = t.add(a, MC); }
        return mk(t);
    }
    public static Value RDot(Value s, Value u) {
        Value[] x = elems(s), y = elems(u);
        if (x.length != y.length) throw new RuntimeException("RDot: lengths differ");
        BigDecimal t = BigDecimal.ZERO;
        for (int i = 0; i < x.length; ++i) {
            BigDecimal a = get(x[i]), b = get(y[i]);
            if (a == null || b == null) return mk(null);
            t = t.add(a.multiply(b, MC), MC);
        }
        return mk(t);
    }
    static BigDecimal[][] mat(Value A) {
        Value[] rows = elems(A);
        BigDecimal[][] m = new BigDecimal[rows.length][];
        for (int i = 0; i < rows.length; ++i) {
            Value[] r = elems(rows[i]);
            m[i] = new BigDecimal[r.length];
            for (int j = 0; j < r.length; ++j) m[i][j] = get(r[j]);
        }
        return m;
    }
    static Value matv(BigDecimal[][] m) {
        Value[] rows = new Value[m.length];
        for (int i = 0; i < m.length; ++i) {
            Value[] r = new Value[m[i].length];
            for (int j = 0; j < r.length; ++j) r[j] = mk(m[i][j]);
            rows[i] = new TupleValue(r);
        }
        return new TupleValue(rows);
    }
    public static Value RMatMul(Value A, Value B) {
        BigDecimal[][] a = mat(A), b = mat(B);
        if (a[0].length != b.length) throw new RuntimeException("RMatMul: dimensions");
        BigDecimal[][] c = new BigDecimal[a.length][b[0].length];
        for (int i = 0; i < a.length; ++i)
            for (int j = 0; j < b[0].length; ++j) {
                BigDecimal t = BigDecimal.ZERO;
                for (int k = 0; k < b.length && t != null; ++k)
                    t = a[i][k] == null || b[k][j] == null ? null : t.add(a[i][k].multiply(b[k][j], MC), MC);
                c[i][j] = t;
            }
        return matv(c);
    }
    public static Value RMatInv(Value A) {
        BigDecimal[][] a = mat(A);
        int n = a.length;
        BigDecimal[][] w = new BigDecimal[n][2 * n];
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) {
                if (a[i][j] == null) return new TupleValue(new Value[0]);
                w[i][j] = a[i][j];
                w[i][n + j] = i == j ? BigDecimal.ONE : BigDecimal.ZERO;
            }
        for (int c = 0; c < n; ++c) {
            int p = c;
            for (int r = c + 1; r < n; ++r) if (w[r][c].abs().compareTo(w[p][c].abs()) > 0) p = r;
            if (w[p][c].signum() == 0) return new TupleValue(new Value[0]);
            BigDecimal[] t = w[p]; w[p] = w[c]; w[c] = t;
            BigDecimal d = w[c][c];
            for (int j = 0; j < 2 * n; ++j) w[c][j] = w[c][j].divide(d, MC);
            for (int r = 0; r < n; ++r) if (r != c && w[r][c].signum() != 0) {
                BigDecimal f = w[r][c];
                for (int j = 0; j < 2 * n; ++j) w[r][j] = w[r][j].subtract(f.multiply(w[c][j], MC), MC);
            }
        }
        BigDecimal[][] o = new BigDecimal[n][n];
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) o[i][j] = w[i][n + j];
        return matv(o);
    }
}
