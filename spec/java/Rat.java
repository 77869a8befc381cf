/* TLC module override for Rat.tla: exact rational arithmetic of unbounded size.
 *
 * TLC's own integers have 32 bits, and the floats observed in the implementation are dyadic rationals
 * with numerators far beyond that.  A rational is represented by its canonical string "n" or "n/d"
 * (d > 1, gcd(n, d) = 1), extended by "inf", "-inf" and "nan".  TLA+ integers are accepted as arguments.
 * Only field arithmetic and comparison live here; everything that has to do with jpt is in TLA+.
 */
import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;

public class Rat {
    static final class Q {
        final BigInteger n, d;   // d == 0: special value; n = 1 inf, -1 -inf, 0 nan
        Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
    }
    static final BigInteger Z = BigInteger.ZERO, O = BigInteger.ONE;
    static final Q NAN = new Q(Z, Z), INF = new Q(O, Z), NINF = new Q(O.negate(), Z), ZERO = new Q(Z, O), ONE = new Q(O, O);
    static final ConcurrentHashMap<String, Q> cache = new ConcurrentHashMap<>();

    static Q mk(BigInteger n, BigInteger d) {
        if (d.signum() == 0) return n.signum() == 0 ? NAN : (n.signum() > 0 ? INF : NINF);
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        BigInteger g = n.gcd(d);
        if (!g.equals(O)) { n = n.divide(g); d = d.divide(g); }
        return new Q(n, d);
    }
    static Q parse(String s) {
        Q q = cache.get(s);
        if (q != null) return q;
        if (s.equals("inf")) q = INF;
        else if (s.equals("-inf")) q = NINF;
        else if (s.equals("nan")) q = NAN;
        else {
            try {
                int i = s.indexOf('/');
                q = i < 0 ? new Q(new BigInteger(s), O) : mk(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
            } catch (NumberFormatException e) { q = NAN; }   // anything unprojectable is not a number
        }
        if (cache.size() < 2000000) cache.put(s, q);
        return q;
    }
    static Q get(Value v) {
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), O);
        if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
        return NAN;
    }
    static Value put(Q q) {
        String s;
        if (q.d.signum() == 0) s = q.n.signum() == 0 ? "nan" : (q.n.signum() > 0 ? "inf" : "-inf");
        else s = q.d.equals(O) ? q.n.toString() : q.n.toString() + "/" + q.d.toString();
        return new StringValue(s);
    }
    static boolean fin(Q a) { return a.d.signum() != 0; }
    static boolean nan(Q a) { return a.d.signum() == 0 && a.n.signum() == 0; }
    static Q add(Q a, Q b) {
        if (fin(a) && fin(b)) return mk(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
        if (nan(a) || nan(b)) return NAN;
        if (fin(a)) return b;
        if (fin(b)) return a;
        return a.n.equals(b.n) ? a : NAN;
    }
    static Q neg(Q a) { return new Q(a.n.negate(), a.d); }
    static Q mul(Q a, Q b) {
        if (fin(a) && fin(b)) return mk(a.n.multiply(b.n), a.d.multiply(b.d));
        if (nan(a) || nan(b)) return NAN;
        int s = a.n.signum() * b.n.signum();
        return s == 0 ? NAN : (s > 0 ? INF : NINF);
    }
    static Q div(Q a, Q b) {
        if (nan(a) || nan(b)) return NAN;
        if (!fin(b)) return fin(a) ? ZERO : NAN;
        if (b.n.signum() == 0) return NAN;
        return mul(a, new Q(b.d, b.n).d.signum() < 0 ? new Q(b.d.negate(), b.n.negate()) : new Q(b.d, b.n));
    }
    static int cmp(Q a, Q b) {   // neither is nan
        if (fin(a) && fin(b)) return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
        if (fin(a)) return -b.n.signum();
        if (fin(b)) return a.n.signum();
        return a.n.compareTo(b.n);
    }
    static BoolValue bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value RNorm(Value a) { return put(get(a)); }
    public static Value RAdd(Value a, Value b) { return put(add(get(a), get(b))); }
    public static Value RSub(Value a, Value b) { return put(add(get(a), neg(get(b)))); }
    public static Value RMul(Value a, Value b) { return put(mul(get(a), get(b))); }
    public static Value RDiv(Value a, Value b) { return put(div(get(a), get(b))); }
    /* a with 100 significant bits */
    public static Value RShort(Value a) {
        Q q = get(a);
        if (!fin(q) || q.n.signum() == 0) return put(q);
        int k = 100 - (q.n.bitLength() - q.d.bitLength());
        if (k >= 0) return put(mk(q.n.shiftLeft(k).divide(q.d), O.shiftLeft(k)));
        return put(q);
    }
    public static Value RNeg(Value a) { return put(neg(get(a))); }
    public static Value RAbs(Value a) { Q q = get(a); return put(q.n.signum() < 0 ? neg(q) : q); }
    public static Value RLt(Value a, Value b) { Q x = get(a), y = get(b); return bool(!nan(x) && !nan(y) && cmp(x, y) < 0); }
    public static Value RLe(Value a, Value b) { Q x = get(a), y = get(b); return bool(!nan(x) && !nan(y) && cmp(x, y) <= 0); }
    public static Value REq(Value a, Value b) { Q x = get(a), y = get(b); return bool(!nan(x) && !nan(y) && cmp(x, y) == 0); }
    public static Value RIsNaN(Value a) { return bool(nan(get(a))); }
    public static Value RIsFin(Value a) { return bool(fin(get(a))); }
    /* |a - b| <= tol * max(1, |a|, |b|); equal infinities are close, nan is close to nan only */
    public static Value RClose(Value a, Value b, Value tol) {
        Q x = get(a), y = get(b), t = get(tol);
        if (nan(x) || nan(y)) return bool(nan(x) && nan(y));
        if (!fin(x) || !fin(y)) return bool(!fin(x) && !fin(y) && x.n.equals(y.n));
        Q diff = add(x, neg(y));
        if (diff.n.signum() < 0) diff = neg(diff);
        Q m = ONE;
        Q ax = x.n.signum() < 0 ? neg(x) : x, ay = y.n.signum() < 0 ? neg(y) : y;
        if (cmp(ax, m) > 0) m = ax;
        if (cmp(ay, m) > 0) m = ay;
        return bool(cmp(diff, mul(t, m)) <= 0);
    }
    public static Value RSum(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        Q r = ZERO;
        for (Value v : t.elems) r = add(r, get(v));
        return put(r);
    }
    public static Value RProd(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        Q r = ONE;
        for (Value v : t.elems) r = mul(r, get(v));
        return put(r);
    }
    public static Value RDot(Value s1, Value s2) {
        TupleValue t = (TupleValue) s1.toTuple(), u = (TupleValue) s2.toTuple();
        Q r = ZERO;
        for (int i = 0; i < Math.min(t.elems.length, u.elems.length); i++) r = add(r, mul(get(t.elems[i]), get(u.elems[i])));
        return put(r);
    }
    /* "inf", "-inf" and numbers as an ordering key: index of a in the non-decreasing sequence s, number of elements < a */
    public static Value RFloor(Value a) {
        Q q = get(a);
        if (!fin(q)) return IntValue.gen(0);
        BigInteger[] qr = q.n.divideAndRemainder(q.d);
        BigInteger f = qr[1].signum() < 0 ? qr[0].subtract(O) : qr[0];
        return f.bitLength() < 31 ? IntValue.gen(f.intValue()) : IntValue.gen(f.signum() > 0 ? Integer.MAX_VALUE : Integer.MIN_VALUE);
    }
}
