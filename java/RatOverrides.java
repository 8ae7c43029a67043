// TLC overrides for module Rat: exact rational arithmetic (BigInteger) plus
// correctly enclosed transcendental functions (dyadic, error < 2^-180).
package optspec;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class RatOverrides implements ITLCOverrides {
    @Override
    @SuppressWarnings("rawtypes")
    public Class[] get() { return new Class[]{RatOverrides.class}; }

    // ---------------------------------------------------------------- rationals
    static final class Q {
        final BigInteger n, d; // d > 0, gcd = 1
        Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
        static Q of(BigInteger n, BigInteger d) {
            if (d.signum() == 0) throw new RuntimeException("Rat: division by zero");
            if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
            if (n.signum() == 0) return new Q(BigInteger.ZERO, BigInteger.ONE);
            if (!d.equals(BigInteger.ONE)) {
                int s = Math.min(n.getLowestSetBit(), d.getLowestSetBit());
                if (s > 0) { n = n.shiftRight(s); d = d.shiftRight(s); }
                if (d.getLowestSetBit() != d.bitLength() - 1) {      // a power of two has nothing left in common with n
                    BigInteger g = n.gcd(d);
                    if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
                }
            }
            return new Q(n, d);
        }
        Q add(Q o) { return of(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d)); }
        Q sub(Q o) { return of(n.multiply(o.d).subtract(o.n.multiply(d)), d.multiply(o.d)); }
        Q mul(Q o) { return of(n.multiply(o.n), d.multiply(o.d)); }
        Q div(Q o) { return of(n.multiply(o.d), d.multiply(o.n)); }
        Q neg() { return new Q(n.negate(), d); }
        Q abs() { return new Q(n.abs(), d); }
        int cmp(Q o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
        @Override public String toString() {
            return d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d;
        }
    }
    static final Q ZERO = new Q(BigInteger.ZERO, BigInteger.ONE);
    static final Q ONE = new Q(BigInteger.ONE, BigInteger.ONE);

    static Q qi(long v) { return new Q(BigInteger.valueOf(v), BigInteger.ONE); }

    static final ConcurrentHashMap<String, Q> cache = new ConcurrentHashMap<>();

    static Q parse(String s) {
        Q q = cache.get(s);
        if (q != null) return q;
        q = parse0(s);
        if (cache.size() > 400000) cache.clear();
        cache.put(s, q);
        return q;
    }
    static Q parse0(String s) {
        int k = s.indexOf('/');
        if (k >= 0) return Q.of(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)));
        if (s.indexOf('x') >= 0 || s.indexOf('X') >= 0) {
            BigDecimal b = new BigDecimal(Double.parseDouble(s));
            return fromDec(b);
        }
        if (s.indexOf('.') >= 0 || s.indexOf('e') >= 0 || s.indexOf('E') >= 0) return fromDec(new BigDecimal(s));
        return new Q(new BigInteger(s), BigInteger.ONE);
    }
    static Q fromDec(BigDecimal b) {
        if (b.scale() <= 0) return new Q(b.toBigIntegerExact(), BigInteger.ONE);
        return Q.of(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
    }
    static Q q(Value v) {
        if (v instanceof IntValue) return qi(((IntValue) v).val);
        if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
        throw new RuntimeException("Rat: not a number: " + v);
    }
    static boolean isNum(Value v) {
        if (v instanceof IntValue) return true;
        if (!(v instanceof StringValue)) return false;
        String s = ((StringValue) v).val.toString();
        if (s.isEmpty()) return false;
        char c = s.charAt(0);
        if (c == '-' || c == '+') { if (s.length() < 2) return false; c = s.charAt(1); }
        return c >= '0' && c <= '9';
    }
    static Value r(Q a) {
        String s = a.toString();
        if (cache.size() > 400000) cache.clear();
        cache.put(s, a);
        return new StringValue(s);
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static Value[] seq(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("Rat: not a sequence: " + v);
        return ((TupleValue) t).elems;
    }

    // --------------------------------------------------------- dyadic fixed point
    static final int P = 256;                      // working precision (bits)
    static final BigInteger FONE = BigInteger.ONE.shiftLeft(P);
    static BigInteger fx(Q a) { return a.n.shiftLeft(P).divide(a.d); }
    static Q unfx(BigInteger f) {                  // drop 56 guard bits
        return Q.of(f.add(BigInteger.ONE.shiftLeft(55)).shiftRight(56), BigInteger.ONE.shiftLeft(P - 56));
    }
    static BigInteger fmul(BigInteger a, BigInteger b) { return a.multiply(b).shiftRight(P); }
    static BigInteger fdiv(BigInteger a, BigInteger b) { return a.shiftLeft(P).divide(b); }
    static BigInteger LN2;
    static synchronized BigInteger ln2() {
        if (LN2 == null) LN2 = fatanhInv(3).shiftLeft(1);   // ln 2 = 2 atanh(1/3)
        return LN2;
    }
    static BigInteger fatanhInv(int k) {            // atanh(1/k)
        BigInteger t = FONE.divide(BigInteger.valueOf(k)), s = BigInteger.ZERO;
        BigInteger k2 = BigInteger.valueOf((long) k * k);
        for (int i = 1; t.signum() != 0; i += 2) { s = s.add(t.divide(BigInteger.valueOf(i))); t = t.divide(k2); }
        return s;
    }
    static BigInteger fatanh(BigInteger x) {
        BigInteger x2 = fmul(x, x), t = x, s = BigInteger.ZERO;
        for (int i = 1; t.abs().bitLength() > 1 && i < 4000; i += 2) { s = s.add(t.divide(BigInteger.valueOf(i))); t = fmul(t, x2); }
        return s;
    }
    /** exp(a) as a rational, relative error < 2^-180 (a reduced modulo ln 2). */
    static Q exp(Q a) {
        if (a.n.signum() == 0) return ONE;
        BigInteger x = fx(a);
        BigInteger[] qr = x.divideAndRemainder(ln2());
        int k = qr[0].intValueExact();
        if (Math.abs((long) k) > 100000) throw new RuntimeException("Rat: exp out of range");
        // a - k ln2 with the reduction error k*2^-256 harmless for |k| < 1e5
        BigInteger rem = qr[1].shiftRight(8);       // halve 8 times
        BigInteger t = FONE, s = FONE;
        for (int i = 1; i < 400; i++) { t = fmul(t, rem).divide(BigInteger.valueOf(i)); if (t.signum() == 0 || t.equals(BigInteger.ONE.negate())) break; s = s.add(t); }
        for (int i = 0; i < 8; i++) s = fmul(s, s);
        Q m = unfx(s);
        return k >= 0 ? Q.of(m.n.shiftLeft(k), m.d) : Q.of(m.n, m.d.shiftLeft(-k));
    }
    static Q log(Q a) {
        if (a.n.signum() <= 0) throw new RuntimeException("Rat: log of non-positive");
        int k = a.n.bitLength() - a.d.bitLength();
        Q m = k >= 0 ? Q.of(a.n, a.d.shiftLeft(k)) : Q.of(a.n.shiftLeft(-k), a.d);   // m in (1/2, 2)
        BigInteger f = fx(m);
        BigInteger y = fdiv(f.subtract(FONE), f.add(FONE));
        return unfx(fatanh(y).shiftLeft(1).add(ln2().multiply(BigInteger.valueOf(k))));
    }
    static Q sqrt(Q a) {
        if (a.n.signum() < 0) throw new RuntimeException("Rat: sqrt of negative");
        if (a.n.signum() == 0) return ZERO;
        BigInteger sn = a.n.sqrt(), sd = a.d.sqrt();
        if (sn.multiply(sn).equals(a.n) && sd.multiply(sd).equals(a.d)) return Q.of(sn, sd);
        int e = (a.d.bitLength() - a.n.bitLength()) / 2;        // normalise
        int sh = Math.max(0, 2 * (e + 220));
        if ((sh & 1) == 1) sh++;
        BigInteger v = a.n.shiftLeft(sh).divide(a.d).sqrt();
        return Q.of(v, BigInteger.ONE.shiftLeft(sh / 2));
    }
    static BigInteger PI;
    static synchronized BigInteger pi() {
        if (PI == null) PI = fatanInv(5).shiftLeft(4).subtract(fatanInv(239).shiftLeft(2));
        return PI;
    }
    static BigInteger fatanInv(int k) {
        BigInteger t = FONE.divide(BigInteger.valueOf(k)), s = BigInteger.ZERO, k2 = BigInteger.valueOf((long) k * k);
        for (int i = 1, sg = 1; t.signum() != 0; i += 2, sg = -sg) {
            BigInteger u = t.divide(BigInteger.valueOf(i));
            s = sg > 0 ? s.add(u) : s.subtract(u);
            t = t.divide(k2);
        }
        return s;
    }
    /** Standard normal distribution function (series Phi(x) = 1/2 + phi(x) sum x^(2k+1)/(2k+1)!!). */
    static Q phi(Q a) {
        if (a.abs().cmp(qi(12)) > 0) return a.n.signum() > 0 ? ONE : ZERO;
        BigInteger x = fx(a), x2 = fmul(x, x), t = x, s = x;
        for (int i = 3; i < 3000; i += 2) {
            t = fmul(t, x2).divide(BigInteger.valueOf(i));
            if (t.abs().bitLength() <= 1) break;
            s = s.add(t);
        }
        Q dens = exp(a.mul(a).div(qi(-2))).div(sqrt(unfx(pi().shiftLeft(1))));
        return round(Q.of(BigInteger.ONE, BigInteger.TWO).add(dens.mul(unfx(s))), 180);
    }
    static Q round(Q a, int bits) {
        BigInteger d2 = a.d.shiftLeft(1);
        BigInteger v = a.n.shiftLeft(bits + 1).add(a.d);
        BigInteger[] qr = v.divideAndRemainder(d2);
        BigInteger f = qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
        return Q.of(f, BigInteger.ONE.shiftLeft(bits));
    }

    // ------------------------------------------------------------------ operators
    static final String M = "Rat";
    @TLAPlusOperator(identifier = "R", module = M, warn = false)
    public static Value R(Value x) { return r(q(x)); }
    @TLAPlusOperator(identifier = "IsNum", module = M, warn = false)
    public static Value isNumOp(Value x) { return b(isNum(x)); }
    @TLAPlusOperator(identifier = "RAdd", module = M, warn = false)
    public static Value add(Value x, Value y) { return r(q(x).add(q(y))); }
    @TLAPlusOperator(identifier = "RSub", module = M, warn = false)
    public static Value sub(Value x, Value y) { return r(q(x).sub(q(y))); }
    @TLAPlusOperator(identifier = "RMul", module = M, warn = false)
    public static Value mul(Value x, Value y) { return r(q(x).mul(q(y))); }
    @TLAPlusOperator(identifier = "RDiv", module = M, warn = false)
    public static Value div(Value x, Value y) { return r(q(x).div(q(y))); }
    @TLAPlusOperator(identifier = "RNeg", module = M, warn = false)
    public static Value neg(Value x) { return r(q(x).neg()); }
    @TLAPlusOperator(identifier = "RAbs", module = M, warn = false)
    public static Value abs(Value x) { return r(q(x).abs()); }
    @TLAPlusOperator(identifier = "RMax", module = M, warn = false)
    public static Value max(Value x, Value y) { Q a = q(x), c = q(y); return r(a.cmp(c) >= 0 ? a : c); }
    @TLAPlusOperator(identifier = "RMin", module = M, warn = false)
    public static Value min(Value x, Value y) { Q a = q(x), c = q(y); return r(a.cmp(c) <= 0 ? a : c); }
    @TLAPlusOperator(identifier = "RLt", module = M, warn = false)
    public static Value lt(Value x, Value y) { return b(q(x).cmp(q(y)) < 0); }
    @TLAPlusOperator(identifier = "RLe", module = M, warn = false)
    public static Value le(Value x, Value y) { return b(q(x).cmp(q(y)) <= 0); }
    @TLAPlusOperator(identifier = "REq", module = M, warn = false)
    public static Value eq(Value x, Value y) { return b(q(x).cmp(q(y)) == 0); }
    @TLAPlusOperator(identifier = "RPow", module = M, warn = false)
    public static Value pow(Value x, Value k) {
        Q a = q(x); int e = ((IntValue) k).val; return r(Q.of(a.n.pow(e), a.d.pow(e)));
    }
    @TLAPlusOperator(identifier = "RSum", module = M, warn = false)
    public static Value sum(Value s) { Q a = ZERO; for (Value v : seq(s)) a = a.add(q(v)); return r(a); }
    @TLAPlusOperator(identifier = "RSeqMax", module = M, warn = false)
    public static Value smax(Value s) { Q a = null; for (Value v : seq(s)) { Q c = q(v); if (a == null || c.cmp(a) > 0) a = c; } return r(a); }
    @TLAPlusOperator(identifier = "RSeqMin", module = M, warn = false)
    public static Value smin(Value s) { Q a = null; for (Value v : seq(s)) { Q c = q(v); if (a == null || c.cmp(a) < 0) a = c; } return r(a); }
    @TLAPlusOperator(identifier = "RDot", module = M, warn = false)
    public static Value dot(Value s, Value t) {
        Value[] a = seq(s), c = seq(t);
        if (a.length != c.length) throw new RuntimeException("RDot: lengths differ");
        Q z = ZERO; for (int i = 0; i < a.length; i++) z = z.add(q(a[i]).mul(q(c[i]))); return r(z);
    }
    @TLAPlusOperator(identifier = "RExp", module = M, warn = false)
    public static Value expOp(Value x) { return r(exp(q(x))); }
    @TLAPlusOperator(identifier = "RLog", module = M, warn = false)
    public static Value logOp(Value x) { return r(log(q(x))); }
    @TLAPlusOperator(identifier = "RSqrt", module = M, warn = false)
    public static Value sqrtOp(Value x) { return r(sqrt(q(x))); }
    @TLAPlusOperator(identifier = "RPhi", module = M, warn = false)
    public static Value phiOp(Value x) { return r(phi(q(x))); }
    @TLAPlusOperator(identifier = "RRound", module = M, warn = false)
    public static Value roundOp(Value x, Value k) { return r(round(q(x), ((IntValue) k).val)); }
    /** |a-b| <= tol * max(1, |b|); FALSE when a is not a number. */
    @TLAPlusOperator(identifier = "RClose", module = M, warn = false)
    public static Value close(Value x, Value y, Value tol) {
        if (!isNum(x) || !isNum(y)) return BoolValue.ValFalse;
        Q a = q(x), c = q(y), m = c.abs();
        if (m.cmp(ONE) < 0) m = ONE;
        return b(a.sub(c).abs().cmp(q(tol).mul(m)) <= 0);
    }
    /** decimal rendering for messages. */
    @TLAPlusOperator(identifier = "RShow", module = M, warn = false)
    public static Value show(Value x) {
        if (!isNum(x)) return new StringValue(x.toString().replace("\"", ""));
        Q a = q(x);
        return new StringValue(new BigDecimal(a.n).divide(new BigDecimal(a.d), new java.math.MathContext(17)).toString());
    }
}
