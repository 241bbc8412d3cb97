import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.ArrayList;
import java.util.List;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import tlc2.value.ValueConstants;

/**
 * Exact rational arithmetic for TLC (module Rat.tla).  TLC integers are 32 bit
 * and it has no reals: this class only supplies the arithmetic primitives
 * (field operations, order, parsing of C hex floats), everything else is TLA+.
 */
public class RatOverrides implements ITLCOverrides {
    public Class[] get() { return new Class[] { RatOverrides.class }; }

    static final class Q extends UserObj implements Comparable<Q> {
        final BigInteger n, d;
        Q(BigInteger n, BigInteger d, boolean norm) {
            if (norm) {
                if (d.signum() == 0) throw new RuntimeException("Rat: division by zero");
                if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
                BigInteger g = n.gcd(d);
                if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
            }
            this.n = n; this.d = d;
        }
        public int compareTo(Q o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
        public int compareTo(Value v) {
            if (v instanceof UserValue && ((UserValue) v).userObj instanceof Q)
                return compareTo((Q) ((UserValue) v).userObj);
            throw new RuntimeException("Rat: comparison of a rational with " + v);
        }
        public boolean member(Value v) { throw new RuntimeException("Rat: not a set"); }
        public boolean isFinite() { return true; }
        public StringBuffer toString(StringBuffer sb, int off, boolean swallow) {
            return sb.append(str());
        }
        String str() { return d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d; }
    }

    static Value mk(BigInteger n, BigInteger d) { return new UserValue(new Q(n, d, true)); }
    static Value wrap(Q q) { return new UserValue(q); }
    static Q q(Value v) {
        if (v instanceof UserValue && ((UserValue) v).userObj instanceof Q) return (Q) ((UserValue) v).userObj;
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE, false);
        if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
        throw new RuntimeException("Rat: not a rational: " + v);
    }
    static Q ofDouble(double x) {
        BigDecimal b = new BigDecimal(x);
        BigInteger u = b.unscaledValue();
        return b.scale() >= 0 ? new Q(u, BigInteger.TEN.pow(b.scale()), true)
                              : new Q(u.multiply(BigInteger.TEN.pow(-b.scale())), BigInteger.ONE, false);
    }
    static boolean finite(String s) {
        String t = s.toLowerCase();
        return !(t.contains("nan") || t.contains("inf"));
    }
    static Q parse(String s) {
        s = s.trim();
        if (!finite(s)) throw new RuntimeException("Rat: not a finite number: " + s);
        int k = s.indexOf('/');
        if (k > 0) return new Q(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)), true);
        if (s.contains("0x") || s.contains("0X")) {
            if (!s.contains("p") && !s.contains("P")) s = s + "p0";
            return ofDouble(Double.parseDouble(s));
        }
        BigDecimal b = new BigDecimal(s);
        BigInteger u = b.unscaledValue();
        return b.scale() >= 0 ? new Q(u, BigInteger.TEN.pow(b.scale()), true)
                              : new Q(u.multiply(BigInteger.TEN.pow(-b.scale())), BigInteger.ONE, false);
    }
    static BoolValue bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static double dbl(Q a) {
        return new BigDecimal(a.n).divide(new BigDecimal(a.d), new java.math.MathContext(40)).doubleValue();
    }

    @TLAPlusOperator(identifier = "R", module = "Rat", warn = false)
    public static Value R(Value v) { return wrap(q(v)); }
    @TLAPlusOperator(identifier = "RFrac", module = "Rat", warn = false)
    public static Value RFrac(Value a, Value b) { return mk(BigInteger.valueOf(((IntValue) a).val), BigInteger.valueOf(((IntValue) b).val)); }
    @TLAPlusOperator(identifier = "RFinite", module = "Rat", warn = false)
    public static Value RFinite(Value v) { return bool(!(v instanceof StringValue) || finite(((StringValue) v).val.toString())); }
    @TLAPlusOperator(identifier = "RNumeral", module = "Rat", warn = false)
    public static Value RNumeral(Value v) { return bool(((StringValue) v).val.toString().matches("[-+]?([0-9]+\\.?[0-9]*|\\.[0-9]+)([eE][-+]?[0-9]{1,4})?")); }
    @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
    public static Value RAdd(Value a, Value b) {
        Q x = q(a), y = q(b);
        if (x.d.equals(y.d)) return mk(x.n.add(y.n), x.d);
        return mk(x.n.multiply(y.d).add(y.n.multiply(x.d)), x.d.multiply(y.d));
    }
    @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
    public static Value RSub(Value a, Value b) {
        Q x = q(a), y = q(b);
        if (x.d.equals(y.d)) return mk(x.n.subtract(y.n), x.d);
        return mk(x.n.multiply(y.d).subtract(y.n.multiply(x.d)), x.d.multiply(y.d));
    }
    @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
    public static Value RMul(Value a, Value b) { Q x = q(a), y = q(b); return mk(x.n.multiply(y.n), x.d.multiply(y.d)); }
    @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
    public static Value RDiv(Value a, Value b) { Q x = q(a), y = q(b); return mk(x.n.multiply(y.d), x.d.multiply(y.n)); }
    @TLAPlusOperator(identifier = "RNeg", module = "Rat", warn = false)
    public static Value RNeg(Value a) { Q x = q(a); return wrap(new Q(x.n.negate(), x.d, false)); }
    @TLAPlusOperator(identifier = "RAbs", module = "Rat", warn = false)
    public static Value RAbs(Value a) { Q x = q(a); return wrap(new Q(x.n.abs(), x.d, false)); }
    @TLAPlusOperator(identifier = "RSign", module = "Rat", warn = false)
    public static Value RSign(Value a) { return IntValue.gen(q(a).n.signum()); }
    @TLAPlusOperator(identifier = "RLt", module = "Rat", warn = false)
    public static Value RLt(Value a, Value b) { return bool(q(a).compareTo(q(b)) < 0); }
    @TLAPlusOperator(identifier = "RLeq", module = "Rat", warn = false)
    public static Value RLeq(Value a, Value b) { return bool(q(a).compareTo(q(b)) <= 0); }
    @TLAPlusOperator(identifier = "REq", module = "Rat", warn = false)
    public static Value REq(Value a, Value b) { return bool(q(a).compareTo(q(b)) == 0); }
    @TLAPlusOperator(identifier = "RFloor", module = "Rat", warn = false)
    public static Value RFloor(Value a) {
        Q x = q(a); BigInteger[] r = x.n.divideAndRemainder(x.d);
        BigInteger f = r[1].signum() < 0 ? r[0].subtract(BigInteger.ONE) : r[0];
        return IntValue.gen(f.intValueExact());
    }
    @TLAPlusOperator(identifier = "RStr", module = "Rat", warn = false)
    public static Value RStr(Value a) { return new StringValue(q(a).str()); }
    @TLAPlusOperator(identifier = "RDec", module = "Rat", warn = false)
    public static Value RDec(Value a) { return new StringValue(Double.toString(dbl(q(a)))); }
    /* the double nearest to the rational, as a C hex float: how a script hands a coordinate to the driver */
    @TLAPlusOperator(identifier = "RHex", module = "Rat", warn = false)
    public static Value RHex(Value a) { return new StringValue(Double.toHexString(dbl(q(a)))); }
    @TLAPlusOperator(identifier = "RRound", module = "Rat", warn = false)
    public static Value RRound(Value a) { return wrap(ofDouble(dbl(q(a)))); }
    @TLAPlusOperator(identifier = "RSin", module = "Rat", warn = false)
    public static Value RSin(Value a) { return wrap(ofDouble(StrictMath.sin(dbl(q(a))))); }
    @TLAPlusOperator(identifier = "RCos", module = "Rat", warn = false)
    public static Value RCos(Value a) { return wrap(ofDouble(StrictMath.cos(dbl(q(a))))); }
    @TLAPlusOperator(identifier = "RPi", module = "Rat", warn = false)
    public static Value RPi() { return wrap(parse("3.14159265358979323846264338327950288")); }
    /* Sum of a sequence of rationals and sum of products, left to right */
    @TLAPlusOperator(identifier = "RSum", module = "Rat", warn = false)
    public static Value RSum(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        BigInteger n = BigInteger.ZERO, d = BigInteger.ONE;
        for (Value v : t.elems) {
            Q x = q(v);
            if (x.d.equals(d)) n = n.add(x.n);
            else { n = n.multiply(x.d).add(x.n.multiply(d)); d = d.multiply(x.d);
                   BigInteger g = n.gcd(d); n = n.divide(g); d = d.divide(g); }
        }
        return mk(n, d);
    }

    /* A fixed pseudo random function of two integers (module GenBase): splitmix64 */
    @TLAPlusOperator(identifier = "Hash", module = "GenBase", warn = false)
    public static Value Hash(Value a, Value b) {
        long z = ((long) ((IntValue) a).val) * 0x9E3779B97F4A7C15L + ((long) ((IntValue) b).val) * 0xD1B54A32D192ED03L + 0x632BE59BD9B4E019L;
        z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
        z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL;
        z = z ^ (z >>> 31);
        return IntValue.gen((int) (z >>> 33));
    }
    /* {k in DOMAIN bs : BoxesTouch(b, bs[k])}, as defined in module Geom */
    @TLAPlusOperator(identifier = "TouchingBoxes", module = "Geom", warn = false)
    public static Value TouchingBoxes(Value b, Value bs) {
        Q[] u = box(b);
        TupleValue t = (TupleValue) bs.toTuple();
        ValueVec r = new ValueVec();
        for (int k = 0; k < t.elems.length; ++k) {
            Q[] v = box(t.elems[k]);
            if (u[0].compareTo(v[2]) <= 0 && v[0].compareTo(u[2]) <= 0 && u[1].compareTo(v[3]) <= 0 && v[1].compareTo(u[3]) <= 0)
                r.addElement(IntValue.gen(k + 1));
        }
        return new SetEnumValue(r, true);
    }
    static Q[] box(Value b) {
        TupleValue t = (TupleValue) b.toTuple();
        return new Q[] { q(t.elems[0]), q(t.elems[1]), q(t.elems[2]), q(t.elems[3]) };
    }
}
