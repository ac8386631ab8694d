// Evaluation of the operators of Num.tla (module override loaded by TLC: class name = module name).
import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.Map;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;

public class Num {
    static final BigInteger ZERO = BigInteger.ZERO, ONE = BigInteger.ONE, TWO = BigInteger.valueOf(2);

    static final class Rat {
        final BigInteger n, d;
        Rat(BigInteger n, BigInteger d) {
            if (d.signum() == 0) throw new ArithmeticException("Num: division by zero");
            if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
            if (!d.equals(ONE)) {
                BigInteger g = n.gcd(d);
                if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
            }
            this.n = n; this.d = d;
        }
        Rat(BigInteger n) { this.n = n; this.d = ONE; }
        Rat add(Rat o) { return d.equals(o.d) ? new Rat(n.add(o.n), d) : new Rat(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d)); }
        Rat neg() { return new Rat(n.negate(), d); }
        Rat sub(Rat o) { return add(o.neg()); }
        Rat mul(Rat o) { return new Rat(n.multiply(o.n), d.multiply(o.d)); }
        Rat div(Rat o) { return new Rat(n.multiply(o.d), d.multiply(o.n)); }
        Rat abs() { return n.signum() < 0 ? neg() : this; }
        int cmp(Rat o) { return d.equals(o.d) ? n.compareTo(o.n) : n.multiply(o.d).compareTo(o.n.multiply(d)); }
        BigInteger floor() { BigInteger[] q = n.divideAndRemainder(d); return (q[1].signum() < 0) ? q[0].subtract(ONE) : q[0]; }
        public String toString() { return d.equals(ONE) ? n.toString() : n.toString() + "/" + d.toString(); }
    }

    static final Map<String, Rat> cache = new ConcurrentHashMap<>();

    static Rat parse(String s) {
        Rat r = cache.get(s);
        if (r != null) return r;
        r = parse0(s);
        if (cache.size() > 200000) cache.clear();
        cache.put(s, r);
        return r;
    }

    static Rat parse0(String s) {
        int sl = s.indexOf('/');
        if (sl >= 0) return new Rat(new BigInteger(s.substring(0, sl)), new BigInteger(s.substring(sl + 1)));
        String t = s;
        boolean neg = false;
        if (t.startsWith("-")) { neg = true; t = t.substring(1); }
        else if (t.startsWith("+")) t = t.substring(1);
        if (t.startsWith("0x") || t.startsWith("0X")) {
            int p = t.indexOf('p');
            String m = t.substring(2, p);
            int e = Integer.parseInt(t.charAt(p + 1) == '+' ? t.substring(p + 2) : t.substring(p + 1));
            int dot = m.indexOf('.');
            if (dot >= 0) { e -= 4 * (m.length() - dot - 1); m = m.substring(0, dot) + m.substring(dot + 1); }
            BigInteger n = new BigInteger(m, 16);
            if (neg) n = n.negate();
            return e >= 0 ? new Rat(n.shiftLeft(e)) : new Rat(n, ONE.shiftLeft(-e));
        }
        if (t.indexOf('.') >= 0 || t.indexOf('e') >= 0 || t.indexOf('E') >= 0) {
            BigDecimal b = new BigDecimal(t);
            if (neg) b = b.negate();
            return b.scale() <= 0 ? new Rat(b.toBigIntegerExact()) : new Rat(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
        }
        BigInteger n = new BigInteger(t);
        return new Rat(neg ? n.negate() : n);
    }

    static String str(Value v) { return ((StringValue) v).val.toString(); }
    static Rat r(Value v) {
        if (v instanceof IntValue) return new Rat(BigInteger.valueOf(((IntValue) v).val));
        return parse(str(v));
    }
    static Value out(Rat x) {
        String s = x.toString();
        if (cache.size() > 200000) cache.clear();
        cache.put(s, x);
        return new StringValue(s);
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static BigInteger nat(Value v) {
        Rat x = r(v);
        if (!x.d.equals(ONE) || x.n.signum() < 0) throw new ArithmeticException("Num: natural expected: " + x);
        return x.n;
    }

    public static Value NCanon(Value a) { return out(r(a)); }
    public static Value NAdd(Value a, Value b) { return out(r(a).add(r(b))); }
    public static Value NSub(Value a, Value b) { return out(r(a).sub(r(b))); }
    public static Value NMul(Value a, Value b) { return out(r(a).mul(r(b))); }
    public static Value NDiv(Value a, Value b) { return out(r(a).div(r(b))); }
    public static Value NNeg(Value a) { return out(r(a).neg()); }
    public static Value NAbs(Value a) { return out(r(a).abs()); }
    public static Value NLt(Value a, Value b) { return b(r(a).cmp(r(b)) < 0); }
    public static Value NLe(Value a, Value b) { return b(r(a).cmp(r(b)) <= 0); }
    public static Value NEq(Value a, Value b) { return b(r(a).cmp(r(b)) == 0); }
    public static Value NMin(Value a, Value b) { Rat x = r(a), y = r(b); return out(x.cmp(y) <= 0 ? x : y); }
    public static Value NMax(Value a, Value b) { Rat x = r(a), y = r(b); return out(x.cmp(y) >= 0 ? x : y); }
    public static Value NSgn(Value a) { return IntValue.gen(r(a).n.signum()); }
    public static Value NFloor(Value a) { return out(new Rat(r(a).floor())); }
    public static Value NTrunc(Value a) { Rat x = r(a); return out(new Rat(x.n.divide(x.d))); }
    public static Value NIsInt(Value a) { return b(r(a).d.equals(ONE)); }
    public static Value NPow(Value a, Value k) {
        int e = ((IntValue) k).val; Rat x = r(a);
        if (e < 0) { x = new Rat(x.d, x.n); e = -e; }
        return out(new Rat(x.n.pow(e), x.d.pow(e)));
    }
    public static Value NPow2(Value k) { return out(pow2(((IntValue) k).val)); }
    static Rat pow2(int e) { return e >= 0 ? new Rat(ONE.shiftLeft(e)) : new Rat(ONE, ONE.shiftLeft(-e)); }
    public static Value NOf(Value i) { return new StringValue(Integer.toString(((IntValue) i).val)); }
    public static Value NInt(Value a) {
        Rat x = r(a);
        if (!x.d.equals(ONE)) throw new ArithmeticException("Num: integer expected: " + x);
        return IntValue.gen(x.n.intValueExact());
    }

    // floor(log2|x|), x != 0
    static int log2f(Rat x) {
        BigInteger n = x.n.abs();
        int e = n.bitLength() - x.d.bitLength();
        // 2^e <= n/d ?
        BigInteger l = e >= 0 ? n : n.shiftLeft(-e), m = e >= 0 ? x.d.shiftLeft(e) : x.d;
        return l.compareTo(m) >= 0 ? e : e - 1;
    }
    public static Value NLog2F(Value a) { return IntValue.gen(log2f(r(a))); }

    // round x to a multiple of 2^e, ties to even
    static Rat roundTo(Rat x, int e) {
        Rat y = x.mul(pow2(-e));
        BigInteger f = y.floor();
        Rat fr = y.sub(new Rat(f));
        int c = fr.cmp(new Rat(ONE, TWO));
        if (c > 0 || (c == 0 && f.testBit(0))) f = f.add(ONE);
        return new Rat(f).mul(pow2(e));
    }
    static final int PREC = 200;
    static Rat rnd(Rat x) {
        if (x.n.signum() == 0 || (x.n.bitLength() + x.d.bitLength() < 512)) return x;
        return roundTo(x, log2f(x) - PREC);
    }
    public static Value NRnd(Value a) { return out(rnd(r(a))); }
    static Value ieee(Rat x, int p, int emin, int emax) {
        if (x.n.signum() == 0) return out(x);
        int e = Math.max(log2f(x), emin);
        Rat y = roundTo(x, e - (p - 1));
        if (y.n.signum() != 0 && log2f(y) > emax) return new StringValue(y.n.signum() > 0 ? "inf" : "-inf");
        return out(y);
    }
    public static Value NF32(Value a) { return ieee(r(a), 24, -126, 127); }
    public static Value NF64(Value a) { return ieee(r(a), 53, -1022, 1023); }

    public static Value NAnd(Value a, Value b) { return out(new Rat(nat(a).and(nat(b)))); }
    public static Value NOr(Value a, Value b) { return out(new Rat(nat(a).or(nat(b)))); }
    public static Value NXor(Value a, Value b) { return out(new Rat(nat(a).xor(nat(b)))); }
    public static Value NMod(Value a, Value b) {
        Rat x = r(a), y = r(b);
        return out(x.sub(y.mul(new Rat(x.div(y).floor()))));
    }
    public static Value NBit(Value a, Value k) { return IntValue.gen(nat(a).testBit(((IntValue) k).val) ? 1 : 0); }

    // ---- real functions, fixed point with W fractional bits -----------------
    static final int W = 220;
    static final BigInteger FONE = ONE.shiftLeft(W);
    static BigInteger fx(Rat x) { return x.n.shiftLeft(W).divide(x.d); }
    static Rat rx(BigInteger f) { return new Rat(f, FONE); }
    static BigInteger fmul(BigInteger a, BigInteger b) { return a.multiply(b).shiftRight(W); }
    static BigInteger atanInv(int q) { // atan(1/q)
        BigInteger s = ZERO, t = FONE.divide(BigInteger.valueOf(q)), q2 = BigInteger.valueOf((long) q * q);
        for (int k = 0; t.signum() != 0; k++) {
            BigInteger u = t.divide(BigInteger.valueOf(2L * k + 1));
            s = (k & 1) == 0 ? s.add(u) : s.subtract(u);
            t = t.divide(q2);
        }
        return s;
    }
    static final BigInteger FPI = atanInv(5).multiply(BigInteger.valueOf(16)).subtract(atanInv(239).multiply(BigInteger.valueOf(4)));
    static final BigInteger FLN2;
    static {
        BigInteger s = ZERO, t = FONE.divide(BigInteger.valueOf(3));
        for (int k = 0; t.signum() != 0; k++) { s = s.add(t.divide(BigInteger.valueOf(2L * k + 1))); t = t.divide(BigInteger.valueOf(9)); }
        FLN2 = s.shiftLeft(1);
    }
    public static Value NPi() { return out(rx(FPI)); }
    static Rat shrink(Rat x) { return x.n.signum() == 0 ? x : roundTo(x, log2f(x) - 180); }
    public static Value NSqrt(Value a) {
        Rat x = r(a);
        if (x.n.signum() < 0) throw new ArithmeticException("Num: sqrt of negative");
        if (x.n.signum() == 0) return out(x);
        int e = log2f(x); int k = (e >> 1) - 200; // result ~ 2^(e/2), keep 200 bits
        Rat y = x.mul(pow2(-2 * k));
        BigInteger s = y.floor().sqrt();
        if (new Rat(s.multiply(s)).cmp(y) == 0) return out(new Rat(s).mul(pow2(k)));
        // exact rational square root?
        BigInteger ns = x.n.sqrt(), ds = x.d.sqrt();
        if (ns.multiply(ns).equals(x.n) && ds.multiply(ds).equals(x.d)) return out(new Rat(ns, ds));
        return out(new Rat(s).mul(pow2(k)));
    }
    static Rat exp(Rat x) {
        BigInteger k = x.div(rx(FLN2)).add(new Rat(ONE, TWO)).floor();
        if (k.bitLength() > 24) throw new ArithmeticException("Num: exp argument too large");
        BigInteger f = fx(x.sub(rx(FLN2).mul(new Rat(k))));
        BigInteger s = FONE, t = FONE;
        for (int i = 1; i < 200 && t.signum() != 0; i++) {
            t = fmul(t, f);
            t = t.divide(BigInteger.valueOf(i));
            s = s.add(t);
        }
        return rx(s).mul(pow2(k.intValue()));
    }
    public static Value NExp(Value a) { return out(shrink(exp(r(a)))); }
    static Rat ln(Rat x) {
        if (x.n.signum() <= 0) throw new ArithmeticException("Num: ln of non-positive");
        int e = log2f(x);
        Rat m = x.mul(pow2(-e)); // [1,2)
        if (m.cmp(new Rat(BigInteger.valueOf(3), TWO)) > 0) { m = m.mul(new Rat(ONE, TWO)); e++; }
        Rat z = m.sub(new Rat(ONE)).div(m.add(new Rat(ONE)));
        BigInteger f = fx(z), f2 = fmul(f, f), t = f, s = ZERO;
        for (int k = 0; k < 400; k++) {
            BigInteger u = t.divide(BigInteger.valueOf(2L * k + 1));
            if (u.signum() == 0) break;
            s = s.add(u);
            t = fmul(t, f2);
        }
        return rx(s.shiftLeft(1)).add(rx(FLN2).mul(new Rat(BigInteger.valueOf(e))));
    }
    public static Value NLn(Value a) { return out(shrink(ln(r(a)))); }
    static BigInteger sincos(Rat x, boolean cos) {
        Rat tp = rx(FPI.shiftLeft(1));
        Rat k = new Rat(x.div(tp).add(new Rat(ONE, TWO)).floor());
        // for large arguments the absolute error grows with |k| * 2^-W: negligible for |x| < 2^60
        BigInteger f = fx(x.sub(tp.mul(k)));
        BigInteger f2 = fmul(f, f), t = cos ? FONE : f, s = t;
        for (int i = cos ? 1 : 2; i < 400; i += 2) {
            t = fmul(t, f2).negate();
            t = t.divide(BigInteger.valueOf((long) i * (i + 1)));
            if (t.signum() == 0 || t.equals(BigInteger.ONE.negate())) break;
            s = s.add(t);
        }
        return s;
    }
    public static Value NSin(Value a) { return out(shrink(rx(sincos(r(a), false)))); }
    public static Value NCos(Value a) { return out(shrink(rx(sincos(r(a), true)))); }
    static Rat atan(Rat x) {
        if (x.n.signum() < 0) return atan(x.neg()).neg();
        if (x.cmp(new Rat(ONE)) > 0) return rx(FPI.shiftRight(1)).sub(atan(new Rat(x.d, x.n)));
        // halve twice: atan x = 2 atan( x / (1+sqrt(1+x^2)) )
        BigInteger f = fx(x);
        int h = 0;
        for (; h < 4; h++) {
            BigInteger q = FONE.add(FONE.add(fmul(f, f)).shiftLeft(W).sqrt());
            f = f.shiftLeft(W).divide(q);
        }
        BigInteger f2 = fmul(f, f), t = f, s = ZERO;
        for (int k = 0; k < 400; k++) {
            BigInteger u = t.divide(BigInteger.valueOf(2L * k + 1));
            if (u.signum() == 0) break;
            s = (k & 1) == 0 ? s.add(u) : s.subtract(u);
            t = fmul(t, f2);
        }
        return rx(s.shiftLeft(h));
    }
    public static Value NAtan(Value a) { return out(shrink(atan(r(a)))); }
    public static Value NDec(Value a, Value k) {
        Rat x = r(a); int p = ((IntValue) k).val;
        return new StringValue(new BigDecimal(x.n.multiply(BigInteger.TEN.pow(p)).divide(x.d), p).toPlainString());
    }
}
