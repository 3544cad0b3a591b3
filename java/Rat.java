// TLC module override for spec/Rat.tla: exact rational arithmetic on strings.
// A value is "n" or "n/d" in lowest terms (d > 1), or one of "nan", "inf", "-inf".
// A decimal such as "1.25" or "-3e-4" is accepted as input and is exact.
import java.math.BigDecimal;
import java.math.BigInteger;
import tlc2.value.impl.*;

public class Rat {
    static final class Q {
        final BigInteger n, d; final int k; // k: 0 finite, 1 nan, 2 +inf, 3 -inf
        Q(BigInteger n, BigInteger d) {
            if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
            BigInteger g = n.gcd(d);
            if (g.signum() != 0 && !g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
            this.n = n; this.d = d; this.k = 0;
        }
        Q(int k) { this.n = BigInteger.ZERO; this.d = BigInteger.ONE; this.k = k; }
        double dbl() {
            if (k == 1) return Double.NaN;
            if (k == 2) return Double.POSITIVE_INFINITY;
            if (k == 3) return Double.NEGATIVE_INFINITY;
            int s = n.abs().bitLength() - d.bitLength();
            if (Math.abs(s) < 900) {
                return new BigDecimal(n).divide(new BigDecimal(d), new java.math.MathContext(40)).doubleValue();
            }
            return new BigDecimal(n).divide(new BigDecimal(d), new java.math.MathContext(40)).doubleValue();
        }
        public String toString() {
            if (k == 1) return "nan";
            if (k == 2) return "inf";
            if (k == 3) return "-inf";
            return d.equals(BigInteger.ONE) ? n.toString() : n.toString() + "/" + d.toString();
        }
    }
    static final Q NAN = new Q(1);
    static final Q ZERO = new Q(BigInteger.ZERO, BigInteger.ONE);

    static Q fromDouble(double x) {
        if (Double.isNaN(x)) return NAN;
        if (Double.isInfinite(x)) return new Q(x > 0 ? 2 : 3);
        BigDecimal b = new BigDecimal(x);
        return fromBig(b);
    }
    static Q fromBig(BigDecimal b) {
        if (b.scale() <= 0) return new Q(b.toBigIntegerExact(), BigInteger.ONE);
        return new Q(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
    }
    static Q parse(String s) {
        switch (s) {
            case "nan": case "NaN": return NAN;
            case "inf": case "+Inf": case "Inf": case "+inf": return new Q(2);
            case "-inf": case "-Inf": return new Q(3);
        }
        int i = s.indexOf('/');
        if (i > 0) return new Q(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
        return fromBig(new BigDecimal(s.trim()));
    }
    static Q q(Value v) {
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
        return parse(((StringValue) v).val.toString());
    }
    static Value s(Q q) { return new StringValue(q.toString()); }
    static boolean fin(Q a) { return a.k == 0; }
    static Q add(Q a, Q b) {
        if (fin(a) && fin(b)) return new Q(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
        return fromDouble((fin(a) ? 0.0 : a.dbl()) + (fin(b) ? 0.0 : b.dbl()));
    }
    static Q neg(Q a) { if (fin(a)) return new Q(a.n.negate(), a.d); return a.k == 1 ? a : new Q(a.k == 2 ? 3 : 2); }
    static Q mul(Q a, Q b) {
        if (fin(a) && fin(b)) return new Q(a.n.multiply(b.n), a.d.multiply(b.d));
        return fromDouble((fin(a) ? a.n.signum() : a.dbl()) * (fin(b) ? b.n.signum() : b.dbl()));
    }
    static Q div(Q a, Q b) {
        if (fin(a) && fin(b)) {
            if (b.n.signum() == 0) return a.n.signum() == 0 ? NAN : new Q(a.n.signum() > 0 ? 2 : 3);
            return new Q(a.n.multiply(b.d), a.d.multiply(b.n));
        }
        return fromDouble((fin(a) ? a.n.signum() : a.dbl()) / (fin(b) ? b.n.signum() : b.dbl()));
    }
    // nan is unordered: cmp returns 2
    static int cmp(Q a, Q b) {
        if (a.k == 1 || b.k == 1) return 2;
        if (fin(a) && fin(b)) return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
        double x = fin(a) ? 0 : a.dbl(), y = fin(b) ? 0 : b.dbl();
        return Double.compare(x, y);
    }
    static Q abs(Q a) { return (fin(a) ? a.n.signum() < 0 : a.k == 3) ? neg(a) : a; }
    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value RAdd(Value a, Value b) { return s(add(q(a), q(b))); }
    public static Value RSub(Value a, Value b) { return s(add(q(a), neg(q(b)))); }
    public static Value RMul(Value a, Value b) { return s(mul(q(a), q(b))); }
    public static Value RDiv(Value a, Value b) { return s(div(q(a), q(b))); }
    public static Value RNeg(Value a) { return s(neg(q(a))); }
    public static Value RAbs(Value a) { return s(abs(q(a))); }
    public static Value RLe(Value a, Value b) { int c = cmp(q(a), q(b)); return bool(c != 2 && c <= 0); }
    public static Value RLt(Value a, Value b) { int c = cmp(q(a), q(b)); return bool(c != 2 && c < 0); }
    public static Value REq(Value a, Value b) { return bool(cmp(q(a), q(b)) == 0); }
    public static Value RMax(Value a, Value b) { Q x = q(a), y = q(b); return s(cmp(x, y) >= 0 ? x : y); }
    public static Value RMin(Value a, Value b) { Q x = q(a), y = q(b); return s(cmp(x, y) <= 0 ? x : y); }
    public static Value RNum(Value a) { return s(q(a)); }
    public static Value RFinite(Value a) { return bool(fin(q(a))); }
    public static Value RIsNaN(Value a) { return bool(q(a).k == 1); }
    // is the string something that denotes a number at all
    public static Value RIsNum(Value a) {
        try { return bool(q(a).k == 0); } catch (NumberFormatException e) { return bool(false); }
    }
    public static Value RSum(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        Q r = ZERO;
        for (Value e : t.elems) r = add(r, q(e));
        return s(r);
    }
    public static Value RSumSq(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        Q r = ZERO;
        for (Value e : t.elems) { Q x = q(e); r = add(r, mul(x, x)); }
        return s(r);
    }
    public static Value RDot(Value v, Value w) {
        TupleValue t = (TupleValue) v.toTuple(), u = (TupleValue) w.toTuple();
        Q r = ZERO;
        for (int i = 0; i < t.elems.length; i++) r = add(r, mul(q(t.elems[i]), q(u.elems[i])));
        return s(r);
    }
    // |a-b| <= atol + rtol*max(|a|,|b|); equal infinities are close; nan is close to nothing
    public static Value RClose(Value a, Value b, Value atol, Value rtol) {
        Q x = q(a), y = q(b);
        if (!fin(x) || !fin(y)) return bool(x.k != 1 && x.k == y.k);
        Q m = cmp(abs(x), abs(y)) >= 0 ? abs(x) : abs(y);
        return bool(cmp(abs(add(x, neg(y))), add(q(atol), mul(q(rtol), m))) <= 0);
    }
    // transcendental functions: the rational of the correctly computed double
    public static Value RLog2(Value a) { return s(fromDouble(Math.log(q(a).dbl()) / Math.log(2.0))); }
    public static Value RLn(Value a) { return s(fromDouble(Math.log(q(a).dbl()))); }
    public static Value RExp(Value a) { return s(fromDouble(Math.exp(q(a).dbl()))); }
    public static Value RSqrt(Value a) { return s(fromDouble(Math.sqrt(q(a).dbl()))); }
    public static Value RAtan(Value a) { return s(fromDouble(Math.atan(q(a).dbl()))); }
    public static Value RRound(Value a) { return s(fromDouble(q(a).dbl())); }
}
