package tlc2.module;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.tool.EvalException;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Exact decimal arithmetic on strings: TLC overrides of module Dec. */
public class Dec {
    static final MathContext MC = new MathContext(60, RoundingMode.HALF_EVEN);
    static final MathContext MS = new MathContext(45, RoundingMode.HALF_EVEN);
    static final StringValue NAN = new StringValue("nan");

    static BigDecimal num(Value v) {
        if (v instanceof IntValue) return BigDecimal.valueOf(((IntValue) v).val);
        if (!(v instanceof StringValue)) return null;
        String s = ((StringValue) v).val.toString();
        try { return new BigDecimal(s); } catch (NumberFormatException e) { return null; }
    }
    static StringValue str(BigDecimal b) {
        if (b == null) return NAN;
        if (b.signum() == 0) return new StringValue("0");
        b = b.stripTrailingZeros();
        int sc = b.scale();
        return new StringValue((sc <= 0 && sc > -30) || (sc > 0 && sc < 30) ? b.toPlainString() : b.toString());
    }
    static BoolValue bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value DAdd(Value a, Value b) { BigDecimal x = num(a), y = num(b); return x == null || y == null ? NAN : str(x.add(y)); }
    public static Value DSub(Value a, Value b) { BigDecimal x = num(a), y = num(b); return x == null || y == null ? NAN : str(x.subtract(y)); }
    public static Value DMul(Value a, Value b) { BigDecimal x = num(a), y = num(b); return x == null || y == null ? NAN : str(x.multiply(y)); }
    public static Value DDiv(Value a, Value b) { BigDecimal x = num(a), y = num(b); return x == null || y == null || y.signum() == 0 ? NAN : str(x.divide(y, MC)); }
    public static Value DNeg(Value a) { BigDecimal x = num(a); return x == null ? NAN : str(x.negate()); }
    public static Value DAbs(Value a) { BigDecimal x = num(a); return x == null ? NAN : str(x.abs()); }
    public static Value DLe(Value a, Value b) { BigDecimal x = num(a), y = num(b); return bool(x != null && y != null && x.compareTo(y) <= 0); }
    public static Value DLt(Value a, Value b) { BigDecimal x = num(a), y = num(b); return bool(x != null && y != null && x.compareTo(y) < 0); }
    public static Value DEq(Value a, Value b) { BigDecimal x = num(a), y = num(b); return bool(x != null && y != null && x.compareTo(y) == 0); }
    public static Value DMax(Value a, Value b) { BigDecimal x = num(a), y = num(b); return x == null || y == null ? NAN : str(x.max(y)); }
    public static Value DMin(Value a, Value b) { BigDecimal x = num(a), y = num(b); return x == null || y == null ? NAN : str(x.min(y)); }
    public static Value DFloor(Value a) { BigDecimal x = num(a); return x == null ? NAN : str(x.setScale(0, RoundingMode.FLOOR)); }
    public static Value DToInt(Value a) {
        BigDecimal x = num(a);
        try { return IntValue.gen(x.intValueExact()); }
        catch (RuntimeException e) { return IntValue.gen(Integer.MIN_VALUE + 1); }
    }
    public static Value DOfInt(Value a) { return str(num(a)); }
    public static Value DIsNum(Value a) { return bool(a instanceof StringValue && num(a) != null); }
    public static Value DSqrt(Value a) { BigDecimal x = num(a); return x == null || x.signum() < 0 ? NAN : str(x.sqrt(MC)); }

    static Value[] seq(Value s) {
        Value t = s.toTuple();
        return t == null ? null : ((TupleValue) t).elems;
    }
    public static Value DSum(Value s) {
        BigDecimal r = BigDecimal.ZERO;
        Value[] e = seq(s);
        if (e == null) return NAN;
        for (Value v : e) { BigDecimal x = num(v); if (x == null) return NAN; r = r.add(x); }
        return str(r);
    }
    static Value dot(Value s, Value t, boolean abs) {
        Value[] p = seq(s), q = seq(t);
        if (p == null || q == null || p.length != q.length) return NAN;
        BigDecimal r = BigDecimal.ZERO;
        for (int i = 0; i < p.length; i++) {
            BigDecimal x = num(p[i]), y = num(q[i]);
            if (x == null || y == null) return NAN;
            BigDecimal m = x.multiply(y);
            r = r.add(abs ? m.abs() : m);
        }
        return str(r);
    }
    public static Value DDot(Value s, Value t) { return dot(s, t, false); }
    public static Value DAbsDot(Value s, Value t) { return dot(s, t, true); }
    public static Value DMaxAbs(Value s) {
        BigDecimal r = BigDecimal.ZERO;
        Value[] e = seq(s);
        if (e == null) return NAN;
        for (Value v : e) { BigDecimal x = num(v); if (x == null) return NAN; r = r.max(x.abs()); }
        return str(r);
    }
    public static Value DRound(Value a, Value n) { BigDecimal x = num(a); return x == null ? NAN : str(x.round(new MathContext(((IntValue) n).val))); }
    public static Value DClose(Value a, Value b, Value tol) {
        BigDecimal x = num(a), y = num(b), t = num(tol);
        return bool(x != null && y != null && t != null && x.subtract(y).abs().compareTo(t) <= 0);
    }
    public static Value DSeqClose(Value s, Value u, Value tol) {
        Value[] p = seq(s), q = seq(u);
        BigDecimal t = num(tol);
        if (p == null || q == null || t == null || p.length != q.length) return bool(false);
        for (int i = 0; i < p.length; i++) {
            BigDecimal x = num(p[i]), y = num(q[i]);
            if (x == null || y == null || x.subtract(y).abs().compareTo(t) > 0) return bool(false);
        }
        return bool(true);
    }

    // ---- transcendental primitives --------------------------------------
    static final BigDecimal PI = new BigDecimal("3.14159265358979323846264338327950288419716939937510582097494459");
    static final BigDecimal TWOPI = PI.multiply(new BigDecimal(2));
    static final BigDecimal EPS = new BigDecimal("1e-42");
    static final BigDecimal LN10 = new BigDecimal("2.30258509299404568401799145468436420760110148862877297603332790");

    public static Value DPi() { return str(PI); }

    static BigDecimal cosSmall(BigDecimal x, boolean sin) {
        BigDecimal x2 = x.multiply(x, MS).negate();
        BigDecimal term = sin ? x : BigDecimal.ONE, sum = term;
        for (int k = sin ? 2 : 1; term.abs().compareTo(EPS) > 0; k += 2) {
            term = term.multiply(x2, MS).divide(new BigDecimal((long) k * (k + 1)), MS);
            sum = sum.add(term, MS);
        }
        return sum;
    }
    static BigDecimal frac(BigDecimal f) { // f mod 1, into [-1/2, 1/2)
        BigDecimal h = new BigDecimal("0.5");
        return f.subtract(f.add(h).setScale(0, RoundingMode.FLOOR));
    }
    public static Value DCos2Pi(Value f) { BigDecimal x = num(f); return x == null ? NAN : str(cosSmall(frac(x).multiply(TWOPI, MS), false)); }
    public static Value DSin2Pi(Value f) { BigDecimal x = num(f); return x == null ? NAN : str(cosSmall(frac(x).multiply(TWOPI, MS), true)); }

    static BigDecimal exp(BigDecimal a) {
        int k = 0;
        BigDecimal x = a;
        while (x.abs().compareTo(new BigDecimal("0.5")) > 0 && k < 60) { x = x.divide(new BigDecimal(2), new MathContext(70)); k++; }
        BigDecimal term = BigDecimal.ONE, sum = BigDecimal.ONE;
        MathContext m = new MathContext(70);
        BigDecimal eps = new BigDecimal("1e-68");
        for (int i = 1; i < 400 && term.abs().compareTo(eps) > 0; i++) { term = term.multiply(x, m).divide(new BigDecimal(i), m); sum = sum.add(term, m); }
        for (int i = 0; i < k; i++) sum = sum.multiply(sum, m);
        return sum.round(MC);
    }
    public static Value DExp(Value a) {
        BigDecimal x = num(a);
        if (x == null || x.abs().compareTo(new BigDecimal(100000)) > 0) return NAN;
        return str(exp(x));
    }
    static BigDecimal ln(BigDecimal x) {
        // x = m * 10^e, 1 <= m < 10
        int e = x.precision() - x.scale() - 1;
        BigDecimal m = x.movePointLeft(e).round(MC);
        BigDecimal y = new BigDecimal(Math.log(m.doubleValue()));
        for (int i = 0; i < 3; i++) {           // Halley
            BigDecimal ey = exp(y);
            y = y.add(new BigDecimal(2).multiply(m.subtract(ey)).divide(m.add(ey), MC), MC);
        }
        return y.add(LN10.multiply(new BigDecimal(e)), MC);
    }
    public static Value DLn(Value a) { BigDecimal x = num(a); return x == null || x.signum() <= 0 ? NAN : str(ln(x)); }
}
