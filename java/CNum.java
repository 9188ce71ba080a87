// Java evaluation of the operators declared in spec/CNum.tla (TLC module override).
// Complex numbers with DIG significant decimal digits; NaN is a sticky flag.
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.impl.*;
import util.UniqueString;

public class CNum {
    static final int DIG = 44;
    static final MathContext MC = new MathContext(DIG, RoundingMode.HALF_EVEN);
    static final MathContext MX = new MathContext(DIG + 12, RoundingMode.HALF_EVEN);
    static final BigDecimal Z = BigDecimal.ZERO, ONE = BigDecimal.ONE, TWO = BigDecimal.valueOf(2);
    static final BigDecimal PI = computePi(), TWOPI = PI.multiply(TWO), HALFPI = PI.divide(TWO);

    // ------------------------------------------------------------------ the value class
    static final class Obj extends UserObj {
        final BigDecimal re, im; final boolean nan;
        Obj(BigDecimal re, BigDecimal im, boolean nan) { this.re = re; this.im = im; this.nan = nan; }
        public int compareTo(Value v) {
            Obj o = obj(v);
            if (nan || o.nan) return Boolean.compare(nan, o.nan);
            int c = re.compareTo(o.re);
            return c != 0 ? c : im.compareTo(o.im);
        }
        public boolean member(Value v) { return false; }
        public boolean isFinite() { return true; }
        public StringBuffer toString(StringBuffer sb, int off, boolean swallow) {
            return sb.append('"').append(str()).append('"');
        }
        String str() {
            if (nan) return "nan";
            MathContext m = new MathContext(12);
            return im.signum() == 0 ? re.round(m).toString()
                 : re.round(m) + (im.signum() < 0 ? "-" : "+") + im.abs().round(m) + "j";
        }
        String key() { return nan ? "nan" : re.stripTrailingZeros() + "," + im.stripTrailingZeros(); }
    }
    static final class CV extends UserValue {
        CV(Obj o) { super(o); }
        public long fingerPrint(long fp) {
            String k = ((Obj) userObj).key();
            for (int i = 0; i < k.length(); i++) fp = FP64.Extend(fp, k.charAt(i));
            return fp;
        }
        public IValue permute(IMVPerm perm) { return this; }
    }
    static Obj obj(Value v) {
        if (v instanceof UserValue && ((UserValue) v).userObj instanceof Obj) return (Obj) ((UserValue) v).userObj;
        if (v instanceof IntValue) return new Obj(BigDecimal.valueOf(((IntValue) v).val), Z, false);
        throw new RuntimeException("CNum: not a number: " + v);
    }
    static Value mk(BigDecimal re, BigDecimal im) { return new CV(new Obj(re.round(MC), im.round(MC), false)); }
    static final Value NAN = new CV(new Obj(Z, Z, true));
    static Value mk(Obj o) { return new CV(o); }

    // ------------------------------------------------------------------ real functions
    static BigDecimal arctanInv(int n, MathContext m) {   // arctan(1/n)
        BigDecimal x = ONE.divide(BigDecimal.valueOf(n), m), x2 = x.multiply(x, m), t = x, s = x;
        BigDecimal eps = ONE.movePointLeft(m.getPrecision() + 2);
        for (int k = 1; t.abs().compareTo(eps) > 0; k++) {
            t = t.multiply(x2, m).negate();
            s = s.add(t.divide(BigDecimal.valueOf(2L * k + 1), m), m);
        }
        return s;
    }
    static BigDecimal computePi() {
        MathContext m = new MathContext(90);
        return BigDecimal.valueOf(16).multiply(arctanInv(5, m), m)
               .subtract(BigDecimal.valueOf(4).multiply(arctanInv(239, m), m), m);
    }
    static BigDecimal rexp(BigDecimal x) {
        if (x.signum() == 0) return ONE;
        double d = x.doubleValue();
        if (d < -2000) return Z;
        if (d > 5000) throw new ArithmeticException("exp overflow");
        int k = Math.max(0, (int) Math.ceil(Math.log(Math.abs(d) + 1e-300) / Math.log(2)) + 6);
        BigDecimal y = x.divide(new BigDecimal(BigInteger.ONE.shiftLeft(k)), MX), t = ONE, s = ONE;
        BigDecimal eps = ONE.movePointLeft(DIG + 12);
        for (int n = 1; n < 400; n++) {
            t = t.multiply(y, MX).divide(BigDecimal.valueOf(n), MX);
            s = s.add(t, MX);
            if (t.abs().compareTo(eps) < 0) break;
        }
        for (int i = 0; i < k; i++) s = s.multiply(s, MX);
        return s;
    }
    static BigDecimal[] sincos(BigDecimal x) {
        BigDecimal q = x.divide(TWOPI, 0, RoundingMode.HALF_EVEN);
        BigDecimal y = x.subtract(q.multiply(TWOPI)).round(MX);
        // reduce further by 2^6 and use double-angle
        int k = 6;
        BigDecimal z = y.divide(BigDecimal.valueOf(1L << k), MX), z2 = z.multiply(z, MX);
        BigDecimal s = z, c = ONE, ts = z, tc = ONE, eps = ONE.movePointLeft(DIG + 14);
        for (int n = 1; n < 200; n++) {
            tc = tc.multiply(z2, MX).divide(BigDecimal.valueOf((2L * n - 1) * (2L * n)), MX).negate();
            ts = ts.multiply(z2, MX).divide(BigDecimal.valueOf((2L * n) * (2L * n + 1)), MX).negate();
            c = c.add(tc, MX); s = s.add(ts, MX);
            if (tc.abs().compareTo(eps) < 0 && ts.abs().compareTo(eps) < 0) break;
        }
        for (int i = 0; i < k; i++) {
            BigDecimal s2 = TWO.multiply(s, MX).multiply(c, MX);
            c = c.multiply(c, MX).subtract(s.multiply(s, MX), MX);
            s = s2;
        }
        return new BigDecimal[]{s, c};
    }
    static BigDecimal rlog(BigDecimal x) {        // x > 0
        // scale to avoid double overflow: x = m * 10^e
        int e = x.precision() - x.scale() - 1;
        BigDecimal m = x.movePointLeft(e);
        BigDecimal y = new BigDecimal(Math.log(m.doubleValue()));
        for (int i = 0; i < 4; i++) {
            BigDecimal ey = rexp(y);
            y = y.add(TWO.multiply(m.subtract(ey, MX), MX).divide(m.add(ey, MX), MX), MX);
        }
        return e == 0 ? y : y.add(LN10().multiply(BigDecimal.valueOf(e), MX), MX);
    }
    static BigDecimal ln10 = null;
    static synchronized BigDecimal LN10() {
        if (ln10 == null) {
            BigDecimal t = BigDecimal.TEN, y = new BigDecimal(Math.log(10.0));
            for (int i = 0; i < 5; i++) {
                BigDecimal ey = rexp(y);
                y = y.add(TWO.multiply(t.subtract(ey, MX), MX).divide(t.add(ey, MX), MX), MX);
            }
            ln10 = y;
        }
        return ln10;
    }
    static BigDecimal rsqrt(BigDecimal x) { return x.signum() <= 0 ? Z : x.sqrt(MX); }
    static BigDecimal ratan2(BigDecimal y, BigDecimal x) {
        if (x.signum() == 0 && y.signum() == 0) return Z;
        BigDecimal r = rsqrt(x.multiply(x, MX).add(y.multiply(y, MX), MX));
        BigDecimal cx = x.divide(r, MX), sy = y.divide(r, MX);
        BigDecimal t = new BigDecimal(Math.atan2(sy.doubleValue(), cx.doubleValue()));
        for (int i = 0; i < 4; i++) {
            BigDecimal[] sc = sincos(t);
            // sin(target - t)
            t = t.add(sy.multiply(sc[1], MX).subtract(cx.multiply(sc[0], MX), MX), MX);
        }
        return t;
    }

    // ------------------------------------------------------------------ construction
    static final ConcurrentHashMap<String, Obj> CACHE = new ConcurrentHashMap<>();
    static Obj parse(String s) {
        Obj o = CACHE.get(s);
        if (o != null) return o;
        String t = s.trim();
        try { o = new Obj(new BigDecimal(t).round(MC), Z, false); }
        catch (NumberFormatException e) { o = new Obj(Z, Z, true); }
        CACHE.put(s, o);
        return o;
    }
    static String sv(Value v) { return ((StringValue) v).val.toString(); }
    public static Value CStr(final Value v) { return mk(parse(sv(v))); }
    public static Value CPair(final Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        Obj a = parse(sv(t.elems[0])), b = parse(sv(t.elems[1]));
        return a.nan || b.nan ? NAN : mk(a.re, b.re);
    }
    public static Value CInt(final Value v) { return mk(BigDecimal.valueOf(((IntValue) v).val), Z); }
    public static Value CPi() { return mk(PI, Z); }
    public static Value CJ() { return mk(Z, ONE); }
    public static Value CNaN() { return NAN; }

    // ------------------------------------------------------------------ arithmetic on Obj
    static Obj oAdd(Obj a, Obj b) { return a.nan || b.nan ? NANO : new Obj(a.re.add(b.re, MC), a.im.add(b.im, MC), false); }
    static Obj oSub(Obj a, Obj b) { return a.nan || b.nan ? NANO : new Obj(a.re.subtract(b.re, MC), a.im.subtract(b.im, MC), false); }
    static Obj oMul(Obj a, Obj b) {
        if (a.nan || b.nan) return NANO;
        if (a.im.signum() == 0 && b.im.signum() == 0) return new Obj(a.re.multiply(b.re, MC), Z, false);
        return new Obj(a.re.multiply(b.re, MC).subtract(a.im.multiply(b.im, MC), MC),
                       a.re.multiply(b.im, MC).add(a.im.multiply(b.re, MC), MC), false);
    }
    static Obj oDiv(Obj a, Obj b) {
        if (a.nan || b.nan) return NANO;
        if (b.im.signum() == 0) {
            if (b.re.signum() == 0) return NANO;
            return new Obj(a.re.divide(b.re, MC), a.im.divide(b.re, MC), false);
        }
        BigDecimal d = b.re.multiply(b.re, MX).add(b.im.multiply(b.im, MX), MX);
        return new Obj(a.re.multiply(b.re, MX).add(a.im.multiply(b.im, MX), MX).divide(d, MC),
                       a.im.multiply(b.re, MX).subtract(a.re.multiply(b.im, MX), MX).divide(d, MC), false);
    }
    static final Obj NANO = new Obj(Z, Z, true);
    static BigDecimal oAbs(Obj a) { return a.im.signum() == 0 ? a.re.abs() : rsqrt(a.re.multiply(a.re, MX).add(a.im.multiply(a.im, MX), MX)); }

    public static Value CAdd(final Value a, final Value b) { return mk(oAdd(obj(a), obj(b))); }
    public static Value CSub(final Value a, final Value b) { return mk(oSub(obj(a), obj(b))); }
    public static Value CMul(final Value a, final Value b) { return mk(oMul(obj(a), obj(b))); }
    public static Value CDiv(final Value a, final Value b) { return mk(oDiv(obj(a), obj(b))); }
    public static Value CNeg(final Value a) { Obj o = obj(a); return o.nan ? NAN : mk(o.re.negate(), o.im.negate()); }
    public static Value CConj(final Value a) { Obj o = obj(a); return o.nan ? NAN : mk(o.re, o.im.negate()); }
    public static Value CRe(final Value a) { Obj o = obj(a); return o.nan ? NAN : mk(o.re, Z); }
    public static Value CIm(final Value a) { Obj o = obj(a); return o.nan ? NAN : mk(o.im, Z); }
    public static Value CAbs(final Value a) { Obj o = obj(a); return o.nan ? NAN : mk(oAbs(o), Z); }
    public static Value CArg(final Value a) { Obj o = obj(a); return o.nan ? NAN : mk(ratan2(o.im, o.re), Z); }
    public static Value CSqrt(final Value a) {
        Obj o = obj(a);
        if (o.nan) return NAN;
        if (o.im.signum() == 0) return o.re.signum() >= 0 ? mk(rsqrt(o.re), Z) : mk(Z, rsqrt(o.re.negate()));
        BigDecimal r = oAbs(o);
        BigDecimal p, q;
        if (o.re.signum() >= 0) {
            p = rsqrt(r.add(o.re, MX).divide(TWO, MX));
            q = o.im.divide(p.multiply(TWO, MX), MX);
        } else {
            q = rsqrt(r.subtract(o.re, MX).divide(TWO, MX));
            if (o.im.signum() < 0) q = q.negate();
            p = o.im.divide(q.multiply(TWO, MX), MX);
        }
        return mk(p, q);
    }
    public static Value CExp(final Value a) {
        Obj o = obj(a);
        if (o.nan || o.re.compareTo(BigDecimal.valueOf(5000)) > 0) return NAN;
        BigDecimal e = rexp(o.re);
        if (o.im.signum() == 0) return mk(e, Z);
        BigDecimal[] sc = sincos(o.im);
        return mk(e.multiply(sc[1], MX), e.multiply(sc[0], MX));
    }
    public static Value CLog(final Value a) {
        Obj o = obj(a);
        if (o.nan || (o.re.signum() == 0 && o.im.signum() == 0)) return NAN;
        return mk(rlog(oAbs(o)), ratan2(o.im, o.re));
    }
    public static Value CFloor(final Value a) {
        Obj o = obj(a);
        return IntValue.gen(o.nan ? 0 : o.re.setScale(0, RoundingMode.FLOOR).intValue());
    }
    // ------------------------------------------------------------------ predicates
    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value CIsNaN(final Value a) { return bool(obj(a).nan); }
    public static Value CEq(final Value a, final Value b) {
        Obj x = obj(a), y = obj(b);
        return bool(!x.nan && !y.nan && x.re.compareTo(y.re) == 0 && x.im.compareTo(y.im) == 0);
    }
    public static Value CLe(final Value a, final Value b) { Obj x = obj(a), y = obj(b); return bool(!x.nan && !y.nan && x.re.compareTo(y.re) <= 0); }
    public static Value CLt(final Value a, final Value b) { Obj x = obj(a), y = obj(b); return bool(!x.nan && !y.nan && x.re.compareTo(y.re) < 0); }
    public static Value CClose(final Value a, final Value b, final Value tol) {
        Obj x = obj(a), y = obj(b);
        if (x.nan || y.nan) return BoolValue.ValFalse;
        return bool(oAbs(oSub(x, y)).compareTo(obj(tol).re) <= 0);
    }
    public static Value CText(final Value a) { Obj x = obj(a); return new StringValue(x.nan ? "nan" : x.re.toString()); }
    public static Value CShow(final Value a) { return new StringValue(obj(a).str()); }

    // ------------------------------------------------------------------ matrices (<<row, row, ...>>)
    static Obj[][] mat(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        Obj[][] r = new Obj[t.elems.length][];
        for (int i = 0; i < r.length; i++) {
            TupleValue row = (TupleValue) t.elems[i].toTuple();
            r[i] = new Obj[row.elems.length];
            for (int j = 0; j < r[i].length; j++) r[i][j] = obj(row.elems[j]);
        }
        return r;
    }
    static Value unmat(Obj[][] m) {
        Value[] rows = new Value[m.length];
        for (int i = 0; i < m.length; i++) {
            Value[] row = new Value[m[i].length];
            for (int j = 0; j < row.length; j++) row[j] = mk(m[i][j]);
            rows[i] = new TupleValue(row);
        }
        return new TupleValue(rows);
    }
    // JSON matrix <<<<<<"re","im">>, ...>>, ...>> -> matrix
    public static Value CMat(final Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        Value[] rows = new Value[t.elems.length];
        for (int i = 0; i < rows.length; i++) {
            TupleValue row = (TupleValue) t.elems[i].toTuple();
            Value[] r = new Value[row.elems.length];
            for (int j = 0; j < r.length; j++) r[j] = CPair(row.elems[j]);
            rows[i] = new TupleValue(r);
        }
        return new TupleValue(rows);
    }
    public static Value CMMul(final Value a, final Value b) {
        Obj[][] A = mat(a), B = mat(b);
        int n = A.length, k = B.length, m = k == 0 ? 0 : B[0].length;
        Obj[][] R = new Obj[n][m];
        for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) {
            Obj s = new Obj(Z, Z, false);
            for (int l = 0; l < k; l++) s = oAdd(s, oMul(A[i][l], B[l][j]));
            R[i][j] = s;
        }
        return unmat(R);
    }
    // X with A X = B, or <<>> when A is (numerically, 1e-30) singular or ill conditioned
    public static Value CMSolve(final Value a, final Value b) {
        Obj[][] A = mat(a), B = mat(b);
        int n = A.length, m = n == 0 ? 0 : B[0].length;
        // row equilibration
        for (int i = 0; i < n; i++) {
            BigDecimal mx = Z;
            for (int j = 0; j < n; j++) { if (A[i][j].nan) return new TupleValue(new Value[0]); mx = mx.max(oAbs(A[i][j])); }
            if (mx.signum() == 0) return new TupleValue(new Value[0]);
            Obj s = new Obj(ONE.divide(mx, MC), Z, false);
            for (int j = 0; j < n; j++) A[i][j] = oMul(A[i][j], s);
            for (int j = 0; j < m; j++) B[i][j] = oMul(B[i][j], s);
        }
        for (int c = 0; c < n; c++) {
            int p = -1; BigDecimal best = new BigDecimal("1e-28");
            for (int i = c; i < n; i++) { BigDecimal v = oAbs(A[i][c]); if (v.compareTo(best) > 0) { best = v; p = i; } }
            if (p < 0) return new TupleValue(new Value[0]);
            Obj[] t = A[c]; A[c] = A[p]; A[p] = t; t = B[c]; B[c] = B[p]; B[p] = t;
            for (int i = 0; i < n; i++) {
                if (i == c || (A[i][c].re.signum() == 0 && A[i][c].im.signum() == 0)) continue;
                Obj f = oDiv(A[i][c], A[c][c]);
                for (int j = c; j < n; j++)
                    if (A[c][j].re.signum() != 0 || A[c][j].im.signum() != 0) A[i][j] = oSub(A[i][j], oMul(f, A[c][j]));
                for (int j = 0; j < m; j++)
                    if (B[c][j].re.signum() != 0 || B[c][j].im.signum() != 0) B[i][j] = oSub(B[i][j], oMul(f, B[c][j]));
            }
        }
        for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) B[i][j] = oDiv(B[i][j], A[i][i]);
        return unmat(B);
    }
    // largest |a_ij - b_ij|; NaN if shapes differ or an entry is NaN
    public static Value CMDist(final Value a, final Value b) {
        Obj[][] A = mat(a), B = mat(b);
        if (A.length != B.length) return NAN;
        BigDecimal d = Z;
        for (int i = 0; i < A.length; i++) {
            if (A[i].length != B[i].length) return NAN;
            for (int j = 0; j < A[i].length; j++) {
                Obj o = oSub(A[i][j], B[i][j]);
                if (o.nan) return NAN;
                d = d.max(oAbs(o));
            }
        }
        return mk(d, Z);
    }
    public static Value CMMax(final Value a) {
        Obj[][] A = mat(a);
        BigDecimal d = Z;
        for (Obj[] r : A) for (Obj o : r) { if (o.nan) return NAN; d = d.max(oAbs(o)); }
        return mk(d, Z);
    }

    // ------------------------------------------------------------------ derived operators, evaluated eagerly
    static Obj ONEO() { return new Obj(ONE, Z, false); }
    static Obj ZERO() { return new Obj(Z, Z, false); }
    public static Value CIdent(final Value n) {
        int k = ((IntValue) n).val;
        Obj[][] R = new Obj[k][k];
        for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) R[i][j] = i == j ? ONEO() : ZERO();
        return unmat(R);
    }
    public static Value CMAdd(final Value a, final Value b) {
        Obj[][] A = mat(a), B = mat(b);
        for (int i = 0; i < A.length; i++) for (int j = 0; j < A[i].length; j++) A[i][j] = oAdd(A[i][j], B[i][j]);
        return unmat(A);
    }
    public static Value CMSub(final Value a, final Value b) {
        Obj[][] A = mat(a), B = mat(b);
        for (int i = 0; i < A.length; i++) for (int j = 0; j < A[i].length; j++) A[i][j] = oSub(A[i][j], B[i][j]);
        return unmat(A);
    }
    public static Value CMScale(final Value k, final Value a) {
        Obj[][] A = mat(a);
        for (int i = 0; i < A.length; i++) for (int j = 0; j < A[i].length; j++) A[i][j] = oMul(obj(k), A[i][j]);
        return unmat(A);
    }
    public static Value CMDiag(final Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        int k = t.elems.length;
        Obj[][] R = new Obj[k][k];
        for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) R[i][j] = i == j ? obj(t.elems[i]) : ZERO();
        return unmat(R);
    }
    static Value trans(Value a, boolean conj) {
        Obj[][] A = mat(a);
        if (A.length == 0) return new TupleValue(new Value[0]);
        Obj[][] R = new Obj[A[0].length][A.length];
        for (int i = 0; i < A.length; i++) for (int j = 0; j < A[0].length; j++) {
            Obj o = A[i][j];
            R[j][i] = conj && !o.nan ? new Obj(o.re, o.im.negate(), false) : o;
        }
        return unmat(R);
    }
    public static Value CMTrans(final Value a) { return trans(a, false); }
    public static Value CMConjT(final Value a) { return trans(a, true); }
    public static Value CMVec(final Value a, final Value v) {
        Obj[][] A = mat(a);
        TupleValue t = (TupleValue) v.toTuple();
        Value[] r = new Value[A.length];
        for (int i = 0; i < A.length; i++) {
            Obj s = ZERO();
            for (int l = 0; l < A[i].length; l++) s = oAdd(s, oMul(A[i][l], obj(t.elems[l])));
            r[i] = mk(s);
        }
        return new TupleValue(r);
    }
    public static Value CSumSeq(final Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        Obj s = ZERO();
        for (Value x : t.elems) s = oAdd(s, obj(x));
        return mk(s);
    }
    public static Value CRow(final Value n, final Value es) {
        int k = ((IntValue) n).val;
        Value[] r = new Value[k];
        Value z = mk(ZERO());
        for (int i = 0; i < k; i++) r[i] = z;
        TupleValue t = (TupleValue) es.toTuple();
        for (Value e : t.elems) {
            TupleValue p = (TupleValue) e.toTuple();
            int i = ((IntValue) p.elems[0]).val - 1;
            r[i] = mk(oAdd(obj(r[i]), obj(p.elems[1])));
        }
        return new TupleValue(r);
    }
}
