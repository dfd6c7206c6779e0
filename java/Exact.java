// TLC module override for spec/Exact.tla.
//
// TLA+ has mathematical integers and (through the Reals module) mathematical
// reals, but TLC evaluates only 32-bit integers.  This class gives TLC exact
// rational arithmetic on strings such as "7", "-3/8" or "2.5e-3", and
// correctly rounded (60 digit) evaluation of sqrt, exp, log and real powers.
// It contains arithmetic only: no definition of the system lives here.
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.concurrent.ConcurrentHashMap;

import tlc2.value.impl.*;

public class Exact {
  public static final long serialVersionUID = 20240601L;
  static final MathContext MC = new MathContext(60, RoundingMode.HALF_EVEN);

  static final class Q implements Comparable<Q> {
    final BigInteger n, d;
    Q(BigInteger n, BigInteger d) {
      if (d.signum() == 0) throw new ArithmeticException("division by zero");
      if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      if (!d.equals(BigInteger.ONE)) {
        BigInteger g = n.gcd(d);
        if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
      }
      this.n = n; this.d = d;
    }
    Q add(Q o) { return new Q(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d)); }
    Q sub(Q o) { return new Q(n.multiply(o.d).subtract(o.n.multiply(d)), d.multiply(o.d)); }
    Q mul(Q o) { return new Q(n.multiply(o.n), d.multiply(o.d)); }
    Q div(Q o) { return new Q(n.multiply(o.d), d.multiply(o.n)); }
    public int compareTo(Q o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
    BigDecimal dec() { return new BigDecimal(n).divide(new BigDecimal(d), MC); }
    public String toString() { return d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d; }
  }
  static final Q ZERO = new Q(BigInteger.ZERO, BigInteger.ONE);

  static Q ofDec(BigDecimal b) {
    b = b.stripTrailingZeros();
    if (b.scale() <= 0) return new Q(b.toBigIntegerExact(), BigInteger.ONE);
    return new Q(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
  }

  static Q parse(String s) {
    int slash = s.indexOf('/');
    if (slash >= 0)
      return new Q(new BigInteger(s.substring(0, slash).trim()), new BigInteger(s.substring(slash + 1).trim()));
    s = s.trim();
    if (s.startsWith("+")) s = s.substring(1);
    if (s.length() > 0 && s.length() < 15 && s.indexOf('.') < 0 && s.indexOf('e') < 0 && s.indexOf('E') < 0)
      return new Q(BigInteger.valueOf(Long.parseLong(s)), BigInteger.ONE);
    return ofDec(new BigDecimal(s));
  }

  static Q q(Value v) {
    if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
    if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
    throw new IllegalArgumentException("not a number: " + v);
  }
  static Value s(Q q) { return new StringValue(q.toString()); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] seq(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new IllegalArgumentException("not a sequence: " + v);
    return t.elems;
  }

  public static Value QAdd(Value a, Value b) { return s(q(a).add(q(b))); }
  public static Value QSub(Value a, Value b) { return s(q(a).sub(q(b))); }
  public static Value QMul(Value a, Value b) { return s(q(a).mul(q(b))); }
  public static Value QDiv(Value a, Value b) { return s(q(a).div(q(b))); }
  public static Value QNeg(Value a) { return s(ZERO.sub(q(a))); }
  public static Value QAbs(Value a) { Q x = q(a); return s(x.n.signum() < 0 ? ZERO.sub(x) : x); }
  public static Value QCmp(Value a, Value b) { return IntValue.gen(q(a).compareTo(q(b))); }
  public static Value QLe(Value a, Value b) { return b(q(a).compareTo(q(b)) <= 0); }
  public static Value QLt(Value a, Value b) { return b(q(a).compareTo(q(b)) < 0); }
  public static Value QEq(Value a, Value b) { return b(q(a).compareTo(q(b)) == 0); }
  public static Value QMax(Value a, Value b) { Q x = q(a), y = q(b); return s(x.compareTo(y) >= 0 ? x : y); }
  public static Value QMin(Value a, Value b) { Q x = q(a), y = q(b); return s(x.compareTo(y) <= 0 ? x : y); }
  public static Value QNum(Value a) {
    if (a instanceof IntValue) return BoolValue.ValTrue;
    if (!(a instanceof StringValue)) return BoolValue.ValFalse;
    try { parse(((StringValue) a).val.toString()); return BoolValue.ValTrue; }
    catch (RuntimeException e) { return BoolValue.ValFalse; }
  }
  // |a-b| <= rel * max(|a|,|b|) + abs
  public static Value QNear(Value a, Value b, Value rel, Value abs) {
    Q x = q(a), y = q(b), r = q(rel), t = q(abs);
    Q d = x.sub(y); if (d.n.signum() < 0) d = ZERO.sub(d);
    Q ax = x.n.signum() < 0 ? ZERO.sub(x) : x, ay = y.n.signum() < 0 ? ZERO.sub(y) : y;
    Q m = ax.compareTo(ay) >= 0 ? ax : ay;
    return b(d.compareTo(r.mul(m).add(t)) <= 0);
  }
  public static Value QFloor(Value a) {
    Q x = q(a);
    BigInteger[] qr = x.n.divideAndRemainder(x.d);
    BigInteger f = x.n.signum() < 0 && qr[1].signum() != 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
    return s(new Q(f, BigInteger.ONE));
  }
  public static Value QInt(Value a) { // exact integer value as a TLC integer
    Q x = q(a);
    return IntValue.gen(x.n.divide(x.d).intValueExact());
  }
  public static Value QPow10(Value e) {
    int k = ((IntValue) e).val;
    return s(k >= 0 ? new Q(BigInteger.TEN.pow(k), BigInteger.ONE) : new Q(BigInteger.ONE, BigInteger.TEN.pow(-k)));
  }
  // floor(log10(|a|)) for a # 0, exactly
  public static Value QMag(Value a) {
    Q x = q(a);
    if (x.n.signum() == 0) throw new ArithmeticException("magnitude of zero");
    BigInteger n = x.n.abs();
    int e = n.toString().length() - x.d.toString().length() - 1;
    while (true) {
      Q p = e + 1 >= 0 ? new Q(BigInteger.TEN.pow(e + 1), BigInteger.ONE) : new Q(BigInteger.ONE, BigInteger.TEN.pow(-e - 1));
      if (new Q(n, x.d).compareTo(p) >= 0) e++; else return IntValue.gen(e);
    }
  }
  public static Value QSum(Value v) {
    Q t = ZERO; for (Value x : seq(v)) t = t.add(q(x)); return s(t);
  }
  public static Value QDot(Value v, Value w) {
    Value[] a = seq(v), c = seq(w);
    if (a.length != c.length) throw new IllegalArgumentException("lengths differ");
    Q t = ZERO; for (int i = 0; i < a.length; i++) t = t.add(q(a[i]).mul(q(c[i]))); return s(t);
  }
  public static Value QDot3(Value v, Value w, Value u) {
    Value[] a = seq(v), c = seq(w), e = seq(u);
    if (a.length != c.length || a.length != e.length) throw new IllegalArgumentException("lengths differ");
    Q t = ZERO; for (int i = 0; i < a.length; i++) t = t.add(q(a[i]).mul(q(c[i])).mul(q(e[i]))); return s(t);
  }
  public static Value QShift(Value v, Value m) { // subtract m from each
    Value[] a = seq(v); Q x = q(m); Value[] r = new Value[a.length];
    for (int i = 0; i < a.length; i++) r[i] = s(q(a[i]).sub(x));
    return new TupleValue(r);
  }
  public static Value QMaxSeq(Value v) {
    Value[] a = seq(v); Q t = q(a[0]); for (Value x : a) { Q y = q(x); if (y.compareTo(t) > 0) t = y; } return s(t);
  }
  public static Value QMinSeq(Value v) {
    Value[] a = seq(v); Q t = q(a[0]); for (Value x : a) { Q y = q(x); if (y.compareTo(t) < 0) t = y; } return s(t);
  }
  // Sum of w[i] over the i with lo <= x[i] <= hi
  public static Value QMass(Value xs, Value ws, Value lo, Value hi) {
    Value[] a = seq(xs), c = seq(ws); Q l = q(lo), h = q(hi), t = ZERO;
    for (int i = 0; i < a.length; i++) { Q x = q(a[i]); if (l.compareTo(x) <= 0 && x.compareTo(h) <= 0) t = t.add(q(c[i])); }
    return s(t);
  }
  static final BigDecimal LN2 = lnSeries(new BigDecimal(2));
  static BigDecimal lnSeries(BigDecimal x) { // x in [0.5, 2]: 2*atanh((x-1)/(x+1))
    MathContext mc = new MathContext(70);
    BigDecimal z = x.subtract(BigDecimal.ONE).divide(x.add(BigDecimal.ONE), mc), z2 = z.multiply(z, mc), t = z, r = z;
    for (int k = 3; k < 400; k += 2) {
      t = t.multiply(z2, mc); BigDecimal u = t.divide(BigDecimal.valueOf(k), mc);
      if (u.signum() == 0 || u.abs().compareTo(new BigDecimal("1e-68")) < 0) break; r = r.add(u, mc);
    }
    return r.multiply(BigDecimal.valueOf(2), MC);
  }
  static BigDecimal ln(BigDecimal x) {
    if (x.signum() <= 0) throw new ArithmeticException("log of non-positive");
    int e = 0; BigDecimal two = BigDecimal.valueOf(2), hi = new BigDecimal("1.5"), lo = new BigDecimal("0.75");
    while (x.compareTo(hi) > 0) { x = x.divide(two, MC); e++; }
    while (x.compareTo(lo) < 0) { x = x.multiply(two, MC); e--; }
    return lnSeries(x).add(LN2.multiply(BigDecimal.valueOf(e), MC), MC);
  }
  static BigDecimal exp(BigDecimal x) {
    BigDecimal k = x.divide(LN2, MC).setScale(0, RoundingMode.HALF_EVEN);
    BigDecimal r = x.subtract(k.multiply(LN2, MC), MC), t = BigDecimal.ONE, s = BigDecimal.ONE;
    for (int i = 1; i < 200; i++) {
      t = t.multiply(r, MC).divide(BigDecimal.valueOf(i), MC); s = s.add(t, MC);
      if (t.signum() == 0 || t.abs().compareTo(new BigDecimal("1e-62")) < 0) break;
    }
    int e = k.intValueExact(); BigDecimal two = BigDecimal.valueOf(2);
    return e >= 0 ? s.multiply(two.pow(e, MC), MC) : s.divide(two.pow(-e, MC), MC);
  }
  public static Value QSqrt(Value a) {
    Q x = q(a); if (x.n.signum() < 0) throw new ArithmeticException("sqrt of negative");
    return s(ofDec(x.dec().sqrt(MC)));
  }
  public static Value QDec(Value a) { return s(ofDec(q(a).dec().round(new MathContext(50)))); }
  public static Value QLn(Value a) { return s(ofDec(ln(q(a).dec()))); }
  static final ConcurrentHashMap<String, Value> EXPS = new ConcurrentHashMap<>();
  public static Value QExp(Value a) {
    Q x = q(a);
    return EXPS.computeIfAbsent(x.toString(), k -> s(ofDec(exp(x.dec()))));
  }
  public static Value QPow(Value a, Value e) { // a > 0, real exponent
    Q x = q(a); if (x.n.signum() == 0) return s(ZERO);
    return s(ofDec(exp(ln(x.dec()).multiply(q(e).dec(), MC))));
  }
  // Standard normal distribution function (power series; |x| <= 12)
  public static Value QPhi(Value a) {
    MathContext mc = new MathContext(90);
    BigDecimal x = q(a).dec(), x2 = x.multiply(x, mc), t = x, r = x;
    for (int k = 1; k < 2000; k++) {
      t = t.multiply(x2, mc).divide(BigDecimal.valueOf(2L * k + 1), mc);
      r = r.add(t, mc);
      if (t.abs().compareTo(new BigDecimal("1e-80")) < 0) break;
    }
    BigDecimal pi = new BigDecimal("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798");
    BigDecimal phi = exp(x2.divide(BigDecimal.valueOf(-2), MC)).divide(pi.multiply(BigDecimal.valueOf(2), mc).sqrt(mc), mc);
    return s(ofDec(new BigDecimal("0.5").add(r.multiply(phi, mc), mc).round(new MathContext(50))));
  }
  // Text helpers (TLC strings are opaque)
  public static Value SLen(Value a) { return IntValue.gen(((StringValue) a).val.toString().length()); }
  public static Value SCat(Value a, Value b) { return new StringValue(((StringValue) a).val.toString() + ((StringValue) b).val.toString()); }
  public static Value SIn(Value sub, Value a) { return b(((StringValue) a).val.toString().contains(((StringValue) sub).val.toString())); }
  public static Value SStarts(Value p, Value a) { return b(((StringValue) a).val.toString().startsWith(((StringValue) p).val.toString())); }
  public static Value SDropFirst(Value a) { return new StringValue(((StringValue) a).val.toString().substring(1)); }
  public static Value SLower(Value a) { return new StringValue(((StringValue) a).val.toString().toLowerCase()); }
  public static Value SJoin(Value sep, Value v) {
    StringBuilder sb = new StringBuilder(); Value[] a = seq(v); String p = ((StringValue) sep).val.toString();
    for (int i = 0; i < a.length; i++) { if (i > 0) sb.append(p); sb.append(((StringValue) a[i]).val.toString()); }
    return new StringValue(sb.toString());
  }
  // Hex pair at (1-based) position p of a #rrggbb string, as an integer
  public static Value SHex(Value a, Value p) {
    int k = ((IntValue) p).val; return IntValue.gen(Integer.parseInt(((StringValue) a).val.toString().substring(k - 1, k + 1), 16));
  }
  public static Value SIsHex6(Value a) { return b(a instanceof StringValue && ((StringValue) a).val.toString().matches("#[0-9a-fA-F]{6}")); }

  // ---- kernel densities (double precision, see spec/Exact.tla) ----
  private static final ThreadLocal<Object[]> LAST = ThreadLocal.withInitial(() -> new Object[4]);
  static double[] doubles(Value v) {
    Object[] l = LAST.get();
    if (l[0] == v) return (double[]) l[1];
    if (l[2] == v) return (double[]) l[3];
    Value[] a = seq(v);
    double[] r = new double[a.length];
    for (int i = 0; i < a.length; i++) r[i] = dbl(a[i]);
    l[2] = l[0]; l[3] = l[1]; l[0] = v; l[1] = r;
    return r;
  }
  static double dbl(Value v) { return q(v).dec().doubleValue(); }
  static Value back(double d) { return s(ofDec(new BigDecimal(d))); }
  static double erf(double x) { // |error| < 1.2e-7 (Numerical Recipes erfc)
    double z = Math.abs(x), t = 1 / (1 + 0.5 * z);
    double r = t * Math.exp(-z * z - 1.26551223 + t * (1.00002368 + t * (0.37409196 + t * (0.09678418 + t * (-0.18628806
        + t * (0.27886807 + t * (-1.13520398 + t * (1.48851587 + t * (-0.82215223 + t * 0.17087277)))))))));
    return x >= 0 ? 1 - r : r - 1;
  }
  static double part(double c, double sg, double a, double b) {
    return 0.5 * (erf((b - c) / (sg * 1.4142135623730951)) - erf((a - c) / (sg * 1.4142135623730951)));
  }
  // Samples in order, with running totals; kernels are cut off at seven widths
  static class Smp {
    Value vx, vw;
    double[] x, w, acc;
    int from(double v) { int a = 0, b = x.length; while (a < b) { int m = (a + b) / 2; if (x[m] < v) a = m + 1; else b = m; } return a; }
    int past(double v) { int a = 0, b = x.length; while (a < b) { int m = (a + b) / 2; if (x[m] <= v) a = m + 1; else b = m; } return a; }
    double one(double sg, double at) {
      double t = 0, k = -0.5 / (sg * sg);
      for (int i = from(at - 7 * sg), e = past(at + 7 * sg); i < e; i++) { double d = at - x[i]; t += w[i] * Math.exp(k * d * d); }
      return t;
    }
    double den(double sg, double lo, double hi, boolean mir, double at) {
      double t = one(sg, at);
      if (mir) t += one(sg, 2 * lo - at) + one(sg, 2 * hi - at);
      return t / (sg * 2.5066282746310002);
    }
    double inside(double sg, double a, double b) {
      if (b < a) return 0;
      if (sg == 0) return acc[past(b)] - acc[from(a)];
      double z = 7 * sg, t = 0;
      if (a + z >= b - z) { for (int i = from(a - z), e = past(b + z); i < e; i++) t += w[i] * part(x[i], sg, a, b); return t; }
      int i1 = past(a + z), i2 = from(b - z);
      for (int i = from(a - z); i < i1; i++) t += w[i] * part(x[i], sg, a, b);
      for (int i = i2, e = past(b + z); i < e; i++) t += w[i] * part(x[i], sg, a, b);
      return t + (i2 > i1 ? acc[i2] - acc[i1] : 0);
    }
    double mass(double sg, double lo, double hi, boolean mir, double a, double b) {
      if (b < a) return 0;
      double t = inside(sg, a, b);
      if (mir && sg != 0) t += inside(sg, 2 * lo - b, 2 * lo - a) + inside(sg, 2 * hi - b, 2 * hi - a);
      return t;
    }
  }
  private static final ThreadLocal<java.util.ArrayDeque<Smp>> SMPS = ThreadLocal.withInitial(java.util.ArrayDeque::new);
  static Smp smp(Value vx, Value vw) {
    java.util.ArrayDeque<Smp> all = SMPS.get();
    for (Smp z : all) if (z.vx == vx && z.vw == vw) return z;
    double[] x = doubles(vx), w = doubles(vw);
    Integer[] k = new Integer[x.length];
    for (int i = 0; i < k.length; i++) k[i] = i;
    java.util.Arrays.sort(k, (i, j) -> Double.compare(x[i], x[j]));
    Smp z = new Smp();
    z.vx = vx; z.vw = vw;
    z.x = new double[k.length]; z.w = new double[k.length]; z.acc = new double[k.length + 1];
    for (int i = 0; i < k.length; i++) { z.x[i] = x[k[i]]; z.w[i] = w[k[i]]; z.acc[i + 1] = z.acc[i] + z.w[i]; }
    all.addFirst(z);
    if (all.size() > 6) all.removeLast();
    return z;
  }
  // the density of unit mass over lo..hi
  public static Value QDen(Value xs, Value ws, Value sg, Value lo, Value hi, Value mir, Value at) {
    Smp z = smp(xs, ws);
    double g = dbl(sg), l = dbl(lo), h = dbl(hi); boolean m = mir == BoolValue.ValTrue;
    return back(z.den(g, l, h, m, dbl(at)) / z.mass(g, l, h, m, l, h));
  }
  static double extreme(Value xs, Value ws, Value sg, Value lo, Value hi, Value mir, Value a, Value b, double sign) {
    Smp z = smp(xs, ws);
    double g = dbl(sg), l = dbl(lo), h = dbl(hi), p = dbl(a), r = dbl(b), best = Double.NEGATIVE_INFINITY; boolean m = mir == BoolValue.ValTrue;
    int n = (int) Math.max(12, Math.min(1200, Math.ceil(4 * (r - p) / g)));
    for (int i = 0; i <= n; i++) best = Math.max(best, sign * z.den(g, l, h, m, p + (r - p) * i / n));
    return sign * best / z.mass(g, l, h, m, l, h);
  }
  public static Value QDenMax(Value xs, Value ws, Value sg, Value lo, Value hi, Value mir, Value a, Value b) {
    return back(extreme(xs, ws, sg, lo, hi, mir, a, b, 1));
  }
  public static Value QDenMin(Value xs, Value ws, Value sg, Value lo, Value hi, Value mir, Value a, Value b) {
    return back(extreme(xs, ws, sg, lo, hi, mir, a, b, -1));
  }
  public static Value QDenMass(Value xs, Value ws, Value sg, Value lo, Value hi, Value mir, Value a, Value b) {
    Smp z = smp(xs, ws);
    double l = dbl(lo), h = dbl(hi), g = dbl(sg);
    boolean m = mir == BoolValue.ValTrue;
    return back(z.mass(g, l, h, m, Math.max(l, dbl(a)), Math.min(h, dbl(b))) / z.mass(g, l, h, m, l, h));
  }
  // largest share held by a window of the given width (starting at 400 evenly spaced places, or at samples when sg = 0)
  public static Value QDenWindow(Value xs, Value ws, Value sg, Value lo, Value hi, Value mir, Value width) {
    Smp z = smp(xs, ws);
    double l = dbl(lo), h = dbl(hi), g = dbl(sg), d = dbl(width), best = 0;
    if (d < 0) return s(ZERO);
    boolean m = mir == BoolValue.ValTrue;
    int n = g == 0 ? z.x.length : 400;
    for (int i = 0; i < n; i++) {
      double a = g == 0 ? z.x[i] : l + (h - l) * i / n;
      if (g == 0 && (a < l || a > h)) continue;
      best = Math.max(best, z.mass(g, l, h, m, Math.max(l, a), Math.min(h, a + d)));
    }
    return back(best / z.mass(g, l, h, m, l, h));
  }
  // ---- two dimensions: densities at the n*n cell centres of a box, the first coordinate outermost ----
  static Value pack(double[] d) { Value[] r = new Value[d.length]; for (int i = 0; i < r.length; i++) r[i] = back(d[i]); return new TupleValue(r); }
  static double[][] kernels(double[] x, double sg, double lo, double hi, int n) {
    double[][] g = new double[n][x.length];
    double k = -0.5 / (sg * sg);
    for (int i = 0; i < n; i++) {
      double at = lo + (hi - lo) * (i + 0.5) / n;
      for (int s = 0; s < x.length; s++) {
        double a = at - x[s], b = 2 * lo - at - x[s], c = 2 * hi - at - x[s];
        g[i][s] = Math.exp(k * a * a) + Math.exp(k * b * b) + Math.exp(k * c * c);
      }
    }
    return g;
  }
  public static Value QJoint(Value xs, Value ys, Value ws, Value sx, Value sy, Value bx, Value by, Value nn) {
    int n = ((IntValue) nn).val;
    double[] x = doubles(xs).clone(), y = doubles(ys).clone(), w = doubles(ws).clone(), p = doubles(bx).clone(), q = doubles(by).clone(), d = new double[n * n];
    double[][] g = kernels(x, dbl(sx), p[0], p[1], n), h = kernels(y, dbl(sy), q[0], q[1], n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double t = 0; for (int s = 0; s < x.length; s++) t += w[s] * g[i][s] * h[j][s]; d[i * n + j] = t; }
    return pack(d);
  }
  public static Value QJointKde(Value xs, Value ys, Value ws, Value inv, Value var, Value trunc, Value nmin, Value bx, Value by, Value nn) {
    int n = ((IntValue) nn).val, min = ((IntValue) nmin).val;
    double[] x = doubles(xs).clone(), y = doubles(ys).clone(), w = doubles(ws).clone(), c = doubles(inv).clone(), p = doubles(bx).clone(), q = doubles(by).clone(), d = new double[n * n];
    double v = dbl(var), r2 = v * dbl(trunc) * dbl(trunc);
    double[] dd = new double[x.length];
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
      double ax = p[0] + (p[1] - p[0]) * (i + 0.5) / n, ay = q[0] + (q[1] - q[0]) * (j + 0.5) / n, t = 0;
      int in = 0;
      for (int s = 0; s < x.length; s++) {
        double a = x[s] - ax, b = y[s] - ay;
        dd[s] = c[0] * a * a + 2 * c[1] * a * b + c[2] * b * b;
        if (dd[s] <= r2) { in++; t += w[s] * Math.exp(-0.5 * dd[s] / v); }
      }
      if (in < min) {
        Integer[] k = new Integer[x.length];
        for (int s = 0; s < k.length; s++) k[s] = s;
        java.util.Arrays.sort(k, (a, b) -> Double.compare(dd[a], dd[b]));
        t = 0;
        for (int s = 0; s < min; s++) t += w[k[s]] * Math.exp(-0.5 * dd[k[s]] / v);
      }
      d[i * n + j] = t;
    }
    return pack(d);
  }
  // share of the total of d^power lying in the symmetric difference of the marked cells and the cells
  // which in order of decreasing density come after the share a and up to the share b
  public static Value QOff(Value den, Value bits, Value power, Value a, Value b) {
    double[] d = doubles(den).clone();
    String m = ((StringValue) bits).val.toString();
    double e = dbl(power), from = dbl(a), to = dbl(b), all = 0, t = 0, off = 0;
    if (e != 1) for (int i = 0; i < d.length; i++) d[i] = Math.pow(d[i], e);
    Integer[] k = new Integer[d.length];
    for (int i = 0; i < d.length; i++) { k[i] = i; all += d[i]; }
    java.util.Arrays.sort(k, (i, j) -> Double.compare(d[j], d[i]));
    for (int i : k) { t += d[i]; double z = (t - 0.5 * d[i]) / all; boolean in = z > from && z <= to; if (in != (m.charAt(i) == '1')) off += d[i]; }
    return back(off / all);
  }
  public static Value SNot(Value bits) {
    String m = ((StringValue) bits).val.toString();
    return new StringValue(m.replace('0', 'x').replace('1', '0').replace('x', '1'));
  }
  public static Value SBit(Value bits, Value i) { return b(((StringValue) bits).val.toString().charAt(((IntValue) i).val - 1) == '1'); }
  // smallest x such that the samples up to x hold a share greater than p
  public static Value QQuantile(Value xs, Value ws, Value p) {
    double[] x = doubles(xs).clone(), w = doubles(ws);
    Integer[] k = new Integer[x.length];
    double all = 0, t = 0;
    for (int i = 0; i < k.length; i++) { k[i] = i; all += w[i]; }
    java.util.Arrays.sort(k, (i, j) -> Double.compare(x[i], x[j]));
    for (int i : k) { t += w[i]; if (t / all > dbl(p)) return back(x[i]); }
    return back(x[k[k.length - 1]]);
  }
}
