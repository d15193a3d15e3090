package vp;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Evaluates module Num: exact rationals with IEEE-style infinities and NaN. */
public final class NumOverrides implements ITLCOverrides {
  @Override
  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[] {NumOverrides.class}; }

  static final class N {
    final int sp; // 0 finite, 1 +inf, -1 -inf, 2 nan
    final BigInteger n, d; // d > 0, lowest terms
    N(int sp) { this.sp = sp; n = BigInteger.ZERO; d = BigInteger.ONE; }
    N(BigInteger n, BigInteger d) { this.sp = 0; this.n = n; this.d = d; }
    int sig() { return sp == 2 ? 0 : sp != 0 ? sp : n.signum(); }
    boolean fin() { return sp == 0; }
    boolean nan() { return sp == 2; }
    BigDecimal dec(MathContext mc) { return new BigDecimal(n).divide(new BigDecimal(d), mc); }
  }
  static final N PINF = new N(1), NINF = new N(-1), NAN = new N(2);
  static final N BAD = new N(2); // what is not a number at all: like NaN, but close to nothing
  static final N ZERO = new N(BigInteger.ZERO, BigInteger.ONE);
  static final N ONE = new N(BigInteger.ONE, BigInteger.ONE);
  static final MathContext MC = new MathContext(50, RoundingMode.HALF_EVEN);
  static final int MAXBITS = 4000, KEEP = 400;

  static N of(BigInteger n, BigInteger d) {
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    BigInteger g = n.gcd(d);
    if (!g.equals(BigInteger.ONE) && g.signum() != 0) { n = n.divide(g); d = d.divide(g); }
    if (n.bitLength() > MAXBITS || d.bitLength() > MAXBITS) {
      // round n/d to KEEP significant bits: m * 2^e
      int e = n.bitLength() - d.bitLength() - KEEP;
      BigInteger m = e >= 0 ? n.divide(d.shiftLeft(e)) : n.shiftLeft(-e).divide(d);
      if (m.signum() == 0) return ZERO;
      int tz = m.getLowestSetBit();
      m = m.shiftRight(tz); e += tz;
      if (e >= 0) return new N(m.shiftLeft(e), BigInteger.ONE);
      return new N(m, BigInteger.ONE.shiftLeft(-e));
    }
    return new N(n, d);
  }
  static N of(BigDecimal x) {
    if (x.signum() == 0) return ZERO;
    // dyadic with 200 significant bits, so later sums keep power-of-two denominators
    BigInteger u = x.unscaledValue(); int s = x.scale();
    BigInteger num = s <= 0 ? u.multiply(BigInteger.TEN.pow(-s)) : u;
    BigInteger den = s > 0 ? BigInteger.TEN.pow(s) : BigInteger.ONE;
    int e = num.bitLength() - den.bitLength() - 200;
    BigInteger m = e >= 0 ? num.divide(den.shiftLeft(e)) : num.shiftLeft(-e).divide(den);
    int tz = m.getLowestSetBit(); m = m.shiftRight(tz); e += tz;
    return e >= 0 ? new N(m.shiftLeft(e), BigInteger.ONE) : new N(m, BigInteger.ONE.shiftLeft(-e));
  }
  static N parse(Value v) {
    if (v instanceof IntValue) return new N(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
    if (!(v instanceof StringValue)) return BAD;
    String s = ((StringValue) v).val.toString();
    switch (s) { case "inf": return PINF; case "-inf": return NINF; case "nan": return NAN;
                 case "0": return ZERO; case "1": return ONE; default: }
    int i = s.indexOf('/');
    try {
      if (i < 0) return new N(new BigInteger(s), BigInteger.ONE);
      return of(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
    } catch (NumberFormatException e) {
      return BAD;
    }
  }
  static Value out(N a) {
    String s = a.sp == 1 ? "inf" : a.sp == -1 ? "-inf" : a.sp == 2 ? "nan"
        : a.d.equals(BigInteger.ONE) ? a.n.toString() : a.n.toString() + "/" + a.d.toString();
    return new StringValue(s);
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  static N add(N a, N b) {
    if (a.nan() || b.nan()) return NAN;
    if (!a.fin()) return (!b.fin() && a.sp != b.sp) ? NAN : a;
    if (!b.fin()) return b;
    if (a.d.equals(b.d)) return of(a.n.add(b.n), a.d);
    return of(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
  }
  static N neg(N a) {
    return a.nan() ? NAN : a.fin() ? new N(a.n.negate(), a.d) : a.sp == 1 ? NINF : PINF;
  }
  static N mul(N a, N b) {
    if (a.nan() || b.nan()) return NAN;
    if (!a.fin() || !b.fin()) {
      int s = a.sig() * b.sig();
      return s == 0 ? NAN : s > 0 ? PINF : NINF;
    }
    return of(a.n.multiply(b.n), a.d.multiply(b.d));
  }
  static N div(N a, N b) {
    if (a.nan() || b.nan()) return NAN;
    if (!b.fin()) return a.fin() ? ZERO : NAN;
    if (b.n.signum() == 0) return a.sig() == 0 ? NAN : a.sig() > 0 ? PINF : NINF;
    if (!a.fin()) return a.sig() * b.sig() > 0 ? PINF : NINF;
    return of(a.n.multiply(b.d), a.d.multiply(b.n));
  }
  static int cmp(N a, N b) { // no nan
    if (!a.fin() || !b.fin()) return Integer.compare(a.fin() ? 0 : a.sp, b.fin() ? 0 : b.sp);
    if (a.d.equals(b.d)) return a.n.compareTo(b.n);
    return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
  }
  static N abs(N a) { return a.sig() < 0 ? neg(a) : a; }

  // results of exp and ln by argument: the same question is asked by many events
  static final java.util.concurrent.ConcurrentHashMap<String, Value> EXPS = new java.util.concurrent.ConcurrentHashMap<>(),
      LOGS = new java.util.concurrent.ConcurrentHashMap<>();
  static Value cached(java.util.concurrent.ConcurrentHashMap<String, Value> m, Value a, java.util.function.Function<Value, Value> f) {
    if (!(a instanceof StringValue)) return f.apply(a);
    String k = ((StringValue) a).val.toString();
    Value v = m.get(k);
    if (v == null) {
      v = f.apply(a);
      if (m.size() < 200000) m.put(k, v);
    }
    return v;
  }
  static final BigDecimal LN2 = ln(new BigDecimal(2));
  static BigDecimal exp(BigDecimal x) { // |x| reasonable
    // e^x = 2^k * e^r, r = x - k ln2, further halved
    BigDecimal k = x.divide(LN2, MC).setScale(0, RoundingMode.HALF_EVEN);
    BigDecimal r = x.subtract(k.multiply(LN2), MathContext.UNLIMITED);
    int h = 16;
    r = r.divide(new BigDecimal(BigInteger.ONE.shiftLeft(h)), new MathContext(56));
    MathContext mc = new MathContext(56);
    BigDecimal t = BigDecimal.ONE, s = BigDecimal.ONE;
    for (int i = 1; i < 60; i++) {
      t = t.multiply(r, mc).divide(BigDecimal.valueOf(i), mc);
      if (t.signum() == 0) break;
      s = s.add(t, mc);
      if (t.precision() - t.scale() < -54) break;
    }
    for (int i = 0; i < h; i++) s = s.multiply(s, mc);
    int ki = k.intValueExact();
    BigDecimal p = ki >= 0 ? new BigDecimal(BigInteger.ONE.shiftLeft(ki))
        : BigDecimal.ONE.divide(new BigDecimal(BigInteger.ONE.shiftLeft(-ki)), mc);
    return s.multiply(p, mc);
  }
  static BigDecimal ln(BigDecimal x) { // x > 0
    MathContext mc = new MathContext(56);
    // bring x near 1 by powers of two, then atanh series
    int k = 0;
    double d;
    BigDecimal two = new BigDecimal(2);
    int ex = x.precision() - x.scale(); // x ~ 10^ex
    BigDecimal y = x;
    if (Math.abs(ex) > 2) {
      k = (int) Math.round((ex - 1) / 0.30102999566398120);
      y = k >= 0 ? x.divide(new BigDecimal(BigInteger.ONE.shiftLeft(k)), mc)
                 : x.multiply(new BigDecimal(BigInteger.ONE.shiftLeft(-k)), mc);
    }
    while ((d = y.doubleValue()) > 1.5) { y = y.divide(two, mc); k++; }
    while ((d = y.doubleValue()) < 0.75) { y = y.multiply(two, mc); k--; }
    BigDecimal z = y.subtract(BigDecimal.ONE).divide(y.add(BigDecimal.ONE), mc);
    BigDecimal z2 = z.multiply(z, mc), t = z, s = z;
    for (int i = 3; i < 400; i += 2) {
      t = t.multiply(z2, mc);
      BigDecimal u = t.divide(BigDecimal.valueOf(i), mc);
      if (u.signum() == 0) break;
      s = s.add(u, mc);
      if (u.precision() - u.scale() < -54) break;
    }
    BigDecimal r = s.multiply(two, mc);
    if (k != 0) r = r.add(BigDecimal.valueOf(k).multiply(LN2 == null ? ln2() : LN2, mc), mc);
    return r;
  }
  static BigDecimal ln2() { // only while LN2 is being initialised: ln 2 = 2 atanh(1/3)
    MathContext mc = new MathContext(60);
    BigDecimal z = BigDecimal.ONE.divide(new BigDecimal(3), mc), z2 = z.multiply(z, mc), t = z, s = z;
    for (int i = 3; i < 400; i += 2) { t = t.multiply(z2, mc); s = s.add(t.divide(BigDecimal.valueOf(i), mc), mc); }
    return s.multiply(new BigDecimal(2), mc);
  }

  @TLAPlusOperator(identifier = "NOfInt", module = "Num", warn = false)
  public static Value NOfInt(final Value a) { return out(parse(a)); }
  @TLAPlusOperator(identifier = "NAdd", module = "Num", warn = false)
  public static Value NAdd(final Value a, final Value b) { return out(add(parse(a), parse(b))); }
  @TLAPlusOperator(identifier = "NSub", module = "Num", warn = false)
  public static Value NSub(final Value a, final Value b) { return out(add(parse(a), neg(parse(b)))); }
  @TLAPlusOperator(identifier = "NMul", module = "Num", warn = false)
  public static Value NMul(final Value a, final Value b) { return out(mul(parse(a), parse(b))); }
  @TLAPlusOperator(identifier = "NDiv", module = "Num", warn = false)
  public static Value NDiv(final Value a, final Value b) { return out(div(parse(a), parse(b))); }
  @TLAPlusOperator(identifier = "NNeg", module = "Num", warn = false)
  public static Value NNeg(final Value a) { return out(neg(parse(a))); }
  @TLAPlusOperator(identifier = "NAbs", module = "Num", warn = false)
  public static Value NAbs(final Value a) { return out(abs(parse(a))); }
  @TLAPlusOperator(identifier = "NExp", module = "Num", warn = false)
  public static Value NExp(final Value a) { return cached(EXPS, a, NumOverrides::exp0); }
  static Value exp0(final Value a) {
    N x = parse(a);
    if (x.nan()) return out(NAN);
    if (!x.fin()) return out(x.sp > 0 ? PINF : ZERO);
    if (x.n.signum() == 0) return out(ONE);
    BigDecimal v = x.dec(new MathContext(70));
    // outside the range of a double: saturate
    if (v.compareTo(new BigDecimal("709.7827")) > 0) return out(PINF);
    if (v.compareTo(new BigDecimal(-760)) < 0) return out(ZERO);
    return out(of(exp(v)));
  }
  @TLAPlusOperator(identifier = "NLog", module = "Num", warn = false)
  public static Value NLog(final Value a) { return cached(LOGS, a, NumOverrides::log0); }
  static Value log0(final Value a) {
    N x = parse(a);
    if (x.nan() || x.sig() < 0) return out(NAN);
    if (!x.fin()) return out(PINF);
    if (x.n.signum() == 0) return out(NINF);
    if (x.n.equals(x.d)) return out(ZERO);
    return out(of(ln(x.dec(new MathContext(70)))));
  }
  @TLAPlusOperator(identifier = "NSqrt", module = "Num", warn = false)
  public static Value NSqrt(final Value a) {
    N x = parse(a);
    if (x.nan() || x.sig() < 0) return out(NAN);
    if (!x.fin()) return out(PINF);
    BigInteger rn = x.n.sqrt(), rd = x.d.sqrt();
    if (rn.multiply(rn).equals(x.n) && rd.multiply(rd).equals(x.d)) return out(new N(rn, rd));
    return out(of(x.dec(new MathContext(70)).sqrt(new MathContext(56))));
  }
  @TLAPlusOperator(identifier = "NPi", module = "Num", warn = false)
  public static Value NPi() {
    return out(of(new BigDecimal("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899")));
  }
  @TLAPlusOperator(identifier = "NLe", module = "Num", warn = false)
  public static Value NLe(final Value a, final Value b) {
    N x = parse(a), y = parse(b); return b(!x.nan() && !y.nan() && cmp(x, y) <= 0);
  }
  @TLAPlusOperator(identifier = "NLt", module = "Num", warn = false)
  public static Value NLt(final Value a, final Value b) {
    N x = parse(a), y = parse(b); return b(!x.nan() && !y.nan() && cmp(x, y) < 0);
  }
  @TLAPlusOperator(identifier = "NEq", module = "Num", warn = false)
  public static Value NEq(final Value a, final Value b) {
    N x = parse(a), y = parse(b); return b(!x.nan() && !y.nan() && cmp(x, y) == 0);
  }
  @TLAPlusOperator(identifier = "NIsNan", module = "Num", warn = false)
  public static Value NIsNan(final Value a) { return b(parse(a).nan()); }
  @TLAPlusOperator(identifier = "NClose", module = "Num", warn = false)
  public static Value NClose(final Value a, final Value b, final Value rel, final Value ab) {
    N x = parse(a), y = parse(b);
    if (x.nan() || y.nan()) return b(x.nan() && y.nan() && x != BAD && y != BAD);
    if (!x.fin() || !y.fin()) return b(x.sp == y.sp);
    N diff = abs(add(x, neg(y)));
    N ax = abs(x), ay = abs(y);
    N tol = add(parse(ab), mul(parse(rel), cmp(ax, ay) > 0 ? ax : ay));
    return b(cmp(diff, tol) <= 0);
  }
  static final BigInteger G16 = BigInteger.ONE.shiftLeft(16), G8 = BigInteger.ONE.shiftLeft(8);
  @TLAPlusOperator(identifier = "NGrid", module = "Num", warn = false)
  public static Value NGrid(final Value a) {
    N x = parse(a);
    return b(x.fin() && x != BAD && G16.mod(x.d).signum() == 0 && x.n.abs().compareTo(G8.multiply(x.d)) <= 0);
  }
  static Value[] elems(Value s) {
    Value t = s.toTuple();
    if (t == null) throw new RuntimeException("Num: not a sequence: " + s);
    return ((TupleValue) t).elems;
  }
  @TLAPlusOperator(identifier = "NSum", module = "Num", warn = false)
  public static Value NSum(final Value s) {
    N r = ZERO;
    for (Value v : elems(s)) r = add(r, parse(v));
    return out(r);
  }
  @TLAPlusOperator(identifier = "NDot", module = "Num", warn = false)
  public static Value NDot(final Value s, final Value t) {
    Value[] x = elems(s), y = elems(t);
    N r = ZERO;
    for (int i = 0; i < x.length && i < y.length; i++) r = add(r, mul(parse(x[i]), parse(y[i])));
    return out(r);
  }
}
