// TLC module override: high precision reals carried as strings.
// The TLA+ module HPReal.tla documents what each operator denotes.
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.*;

public class HPReal {
  static final MathContext MC = new MathContext(60, RoundingMode.HALF_EVEN);
  static final BigDecimal TWO = BigDecimal.valueOf(2);
  static final BigDecimal HALF = new BigDecimal("0.5");
  static BigDecimal PI_ = null, LN2_ = null;

  static String s(Value v) {
    if (v instanceof StringValue) return ((StringValue) v).getVal().toString();
    if (v instanceof IntValue) return Integer.toString(((IntValue) v).val);
    return v.toString();
  }
  static boolean fin(String x) { return !(x.equals("nan") || x.equals("inf") || x.equals("-inf")); }
  static BigDecimal p(String x) { return new BigDecimal(x); }
  static Value out(BigDecimal d) {
    d = d.round(MC);
    if (d.signum() == 0) return new StringValue("0");
    return new StringValue(d.stripTrailingZeros().toString());
  }
  static Value nan() { return new StringValue("nan"); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] seq(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return t.elems;
  }
  static double dbl(String x) {
    if (x.equals("nan")) return Double.NaN;
    if (x.equals("inf")) return Double.POSITIVE_INFINITY;
    if (x.equals("-inf")) return Double.NEGATIVE_INFINITY;
    return p(x).doubleValue();
  }
  static Value special(double d) {
    if (Double.isNaN(d)) return nan();
    return new StringValue(d > 0 ? "inf" : "-inf");
  }

  public static Value HReal(Value a) { return out(p(s(a))); }
  public static Value HFrac(Value a, Value c) { return out(p(s(a)).divide(p(s(c)), MC)); }
  public static Value HIsFinite(Value a) { return b(fin(s(a))); }
  public static Value HAdd(Value a, Value c) {
    String x = s(a), y = s(c);
    if (fin(x) && fin(y)) return out(p(x).add(p(y), MC));
    double d = (fin(x) ? 0.0 : dbl(x)) + (fin(y) ? 0.0 : dbl(y));
    return special(d);
  }
  public static Value HSub(Value a, Value c) {
    String x = s(a), y = s(c);
    if (fin(x) && fin(y)) return out(p(x).subtract(p(y), MC));
    double d = (fin(x) ? 0.0 : dbl(x)) - (fin(y) ? 0.0 : dbl(y));
    return special(d);
  }
  public static Value HMul(Value a, Value c) {
    String x = s(a), y = s(c);
    if (fin(x) && fin(y)) return out(p(x).multiply(p(y), MC));
    return special(dbl(x) * dbl(y));
  }
  public static Value HDiv(Value a, Value c) {
    String x = s(a), y = s(c);
    if (!fin(x) || !fin(y)) return nan();
    BigDecimal d = p(y);
    if (d.signum() == 0) return nan();
    return out(p(x).divide(d, MC));
  }
  public static Value HNeg(Value a) {
    String x = s(a);
    if (!fin(x)) return x.equals("nan") ? nan() : new StringValue(x.equals("inf") ? "-inf" : "inf");
    return out(p(x).negate());
  }
  public static Value HAbs(Value a) {
    String x = s(a);
    if (!fin(x)) return x.equals("nan") ? nan() : new StringValue("inf");
    return out(p(x).abs());
  }
  // comparisons are false as soon as a nan is involved
  static int cmp(String x, String y) {
    if (fin(x) && fin(y)) return p(x).compareTo(p(y));
    double u = fin(x) ? 0.0 : dbl(x), v = fin(y) ? 0.0 : dbl(y);
    return Double.compare(u, v);
  }
  static boolean anynan(String x, String y) { return x.equals("nan") || y.equals("nan"); }
  public static Value HLt(Value a, Value c) { String x = s(a), y = s(c); return b(!anynan(x, y) && cmp(x, y) < 0); }
  public static Value HLe(Value a, Value c) { String x = s(a), y = s(c); return b(!anynan(x, y) && cmp(x, y) <= 0); }
  public static Value HEq(Value a, Value c) { String x = s(a), y = s(c); return b(!anynan(x, y) && cmp(x, y) == 0); }
  public static Value HMax(Value a, Value c) { String x = s(a), y = s(c); if (anynan(x, y)) return nan(); return cmp(x, y) >= 0 ? a : c; }
  public static Value HMin(Value a, Value c) { String x = s(a), y = s(c); if (anynan(x, y)) return nan(); return cmp(x, y) <= 0 ? a : c; }
  // |a-b| <= atol + rtol*|b|
  static boolean close(String x, String y, BigDecimal at, BigDecimal rt) {
    if (!fin(x) || !fin(y)) return x.equals(y);
    BigDecimal u = p(x), v = p(y);
    return u.subtract(v, MC).abs().compareTo(at.add(rt.multiply(v.abs(), MC), MC)) <= 0;
  }
  public static Value HClose(Value a, Value c, Value at, Value rt) { return b(close(s(a), s(c), p(s(at)), p(s(rt)))); }
  public static Value HAllClose(Value a, Value c, Value at, Value rt) {
    Value[] x = seq(a), y = seq(c);
    if (x.length != y.length) return b(false);
    BigDecimal A = p(s(at)), R = p(s(rt));
    for (int i = 0; i < x.length; i++) if (!close(s(x[i]), s(y[i]), A, R)) return b(false);
    return b(true);
  }
  public static Value HSum(Value a) {
    BigDecimal t = BigDecimal.ZERO;
    for (Value v : seq(a)) { String x = s(v); if (!fin(x)) return nan(); t = t.add(p(x), MC); }
    return out(t);
  }
  public static Value HDot(Value a, Value c) {
    Value[] x = seq(a), y = seq(c);
    BigDecimal t = BigDecimal.ZERO;
    for (int i = 0; i < x.length; i++) {
      String u = s(x[i]), v = s(y[i]);
      if (!fin(u) || !fin(v)) return nan();
      t = t.add(p(u).multiply(p(v), MC), MC);
    }
    return out(t);
  }
  public static Value HFloor(Value a) { return IntValue.gen(p(s(a)).setScale(0, RoundingMode.FLOOR).intValueExact()); }
  public static Value HPow(Value a, Value n) {
    int k = ((IntValue) n).val;
    BigDecimal x = p(s(a));
    if (k == 0) return out(BigDecimal.ONE);
    BigDecimal r = x.pow(Math.abs(k), MC);
    return out(k > 0 ? r : BigDecimal.ONE.divide(r, MC));
  }
  public static Value HSqrt(Value a) {
    String x = s(a);
    if (!fin(x) || p(x).signum() < 0) return nan();
    return out(p(x).sqrt(MC));
  }
  static final MathContext WC = new MathContext(80, RoundingMode.HALF_EVEN);
  static BigDecimal exp(BigDecimal x) {
    if (x.signum() == 0) return BigDecimal.ONE;
    int k = Math.max(0, x.precision() - x.scale() + 1) * 4 + 8;   // halvings
    BigDecimal y = x.divide(TWO.pow(k), WC);
    BigDecimal term = BigDecimal.ONE, sum = BigDecimal.ONE;
    for (int i = 1; i < 400; i++) {
      term = term.multiply(y, WC).divide(BigDecimal.valueOf(i), WC);
      sum = sum.add(term, WC);
      if (term.signum() == 0 || term.abs().compareTo(new BigDecimal("1e-85")) < 0) break;
    }
    for (int i = 0; i < k; i++) sum = sum.multiply(sum, WC);
    return sum;
  }
  static BigDecimal log(BigDecimal x) {
    // Newton on exp starting from the double logarithm
    int e = x.precision() - x.scale() - 1;
    BigDecimal m = x.scaleByPowerOfTen(-e);
    double l0 = Math.log(m.doubleValue()) + e * Math.log(10.0);
    BigDecimal y = new BigDecimal(l0);
    for (int i = 0; i < 4; i++) {
      BigDecimal ey = exp(y);
      y = y.add(TWO.multiply(x.subtract(ey, WC), WC).divide(x.add(ey, WC), WC), WC);
    }
    return y;
  }
  static BigDecimal pi() {
    if (PI_ == null) { // Machin
      PI_ = BigDecimal.valueOf(16).multiply(atanInv(5), WC).subtract(BigDecimal.valueOf(4).multiply(atanInv(239), WC), WC);
    }
    return PI_;
  }
  static BigDecimal atanInv(int n) {
    BigDecimal x = BigDecimal.ONE.divide(BigDecimal.valueOf(n), WC), x2 = x.multiply(x, WC), t = x, r = x;
    for (int k = 1; k < 200; k++) {
      t = t.multiply(x2, WC).negate();
      BigDecimal u = t.divide(BigDecimal.valueOf(2 * k + 1), WC);
      r = r.add(u, WC);
      if (u.abs().compareTo(new BigDecimal("1e-90")) < 0) break;
    }
    return r;
  }
  static BigDecimal reduce(BigDecimal x) { // to [-pi,pi]
    BigDecimal tp = TWO.multiply(pi(), WC);
    BigInteger k = x.divide(tp, WC).setScale(0, RoundingMode.HALF_EVEN).toBigInteger();
    return x.subtract(tp.multiply(new BigDecimal(k), WC), WC);
  }
  static BigDecimal sin(BigDecimal x) {
    x = reduce(x);
    BigDecimal x2 = x.multiply(x, WC), t = x, r = x;
    for (int k = 1; k < 200; k++) {
      t = t.multiply(x2, WC).divide(BigDecimal.valueOf((2L * k) * (2L * k + 1)), WC).negate();
      r = r.add(t, WC);
      if (t.signum() == 0 || t.abs().compareTo(new BigDecimal("1e-85")) < 0) break;
    }
    return r;
  }
  public static Value HPi() { return out(pi()); }
  public static Value HExp(Value a) { String x = s(a); if (!fin(x)) return x.equals("-inf") ? new StringValue("0") : a; return out(exp(p(x))); }
  public static Value HLog(Value a) { String x = s(a); if (!fin(x)) return x.equals("inf") ? a : nan(); BigDecimal d = p(x); if (d.signum() == 0) return new StringValue("-inf"); if (d.signum() < 0) return nan(); return out(log(d)); }
  public static Value HSin(Value a) { return out(sin(p(s(a)))); }
  public static Value HCos(Value a) { return out(sin(p(s(a)).add(pi().divide(TWO, WC), WC))); }
  public static Value HTanh(Value a) {
    BigDecimal x = p(s(a));
    if (x.abs().compareTo(BigDecimal.valueOf(100)) > 0) return out(BigDecimal.valueOf(x.signum()));
    BigDecimal e = exp(TWO.multiply(x, WC));
    return out(e.subtract(BigDecimal.ONE, WC).divide(e.add(BigDecimal.ONE, WC), WC));
  }
  // x^y, x>0 real
  public static Value HRPow(Value a, Value c) {
    String x = s(a), y = s(c);
    BigDecimal u = p(x);
    if (u.signum() == 0) return out(BigDecimal.ZERO);
    if (u.signum() < 0) return nan();
    return out(exp(p(y).multiply(log(u), WC)));
  }
  // standard normal distribution function
  public static Value HPhi(Value a) {
    String xs = s(a);
    if (xs.equals("inf")) return new StringValue("1");
    if (xs.equals("-inf")) return new StringValue("0");
    BigDecimal x = p(xs);
    if (x.compareTo(BigDecimal.valueOf(-12)) < 0) return new StringValue("0");
    if (x.compareTo(BigDecimal.valueOf(12)) > 0) return new StringValue("1");
    // Phi = 1/2 + phi(x) * sum x^(2k+1)/(1*3*...*(2k+1))
    BigDecimal x2 = x.multiply(x, WC), t = x, r = x;
    for (int k = 1; k < 2000; k++) {
      t = t.multiply(x2, WC).divide(BigDecimal.valueOf(2 * k + 1), WC);
      r = r.add(t, WC);
      if (t.signum() == 0 || t.abs().compareTo(new BigDecimal("1e-60")) < 0) break;
    }
    BigDecimal ph = exp(x2.divide(TWO, WC).negate()).divide(TWO.multiply(pi(), WC).sqrt(WC), WC);
    return out(HALF.add(ph.multiply(r, WC), WC));
  }
  // ---- special functions
  static BigDecimal[] BERN = null;
  static BigDecimal[] bern() {      // B_0 .. B_44
    if (BERN == null) {
      int n = 44;
      BigDecimal[] q = new BigDecimal[n + 1];
      BigDecimal[] num = new BigDecimal[n + 1];
      // exact rationals via Akiyama-Tanigawa on BigInteger fractions
      BigInteger[] an = new BigInteger[n + 1], ad = new BigInteger[n + 1];
      for (int m = 0; m <= n; m++) {
        an[m] = BigInteger.ONE; ad[m] = BigInteger.valueOf(m + 1);
        for (int j = m; j >= 1; j--) {
          BigInteger nn = an[j - 1].multiply(ad[j]).subtract(an[j].multiply(ad[j - 1])).multiply(BigInteger.valueOf(j));
          BigInteger dd = ad[j - 1].multiply(ad[j]);
          BigInteger g = nn.gcd(dd); if (g.signum() == 0) g = BigInteger.ONE;
          an[j - 1] = nn.divide(g); ad[j - 1] = dd.divide(g);
        }
        q[m] = new BigDecimal(an[0]).divide(new BigDecimal(ad[0]), WC);
      }
      BERN = q;
    }
    return BERN;
  }
  static BigDecimal lgamma(BigDecimal x) {   // x > 0
    BigDecimal prod = BigDecimal.ONE;
    BigDecimal lim = BigDecimal.valueOf(70);
    while (x.compareTo(lim) < 0) { prod = prod.multiply(x, WC); x = x.add(BigDecimal.ONE, WC); }
    BigDecimal lx = log(x);
    BigDecimal r = x.subtract(HALF, WC).multiply(lx, WC).subtract(x, WC).add(HALF.multiply(log(TWO.multiply(pi(), WC)), WC), WC);
    BigDecimal xp = x, x2 = x.multiply(x, WC);
    BigDecimal[] b = bern();
    for (int k = 1; k <= 22; k++) {
      r = r.add(b[2 * k].divide(BigDecimal.valueOf(2L * k * (2L * k - 1)), WC).divide(xp, WC), WC);
      xp = xp.multiply(x2, WC);
    }
    return r.subtract(log(prod), WC);
  }
  public static Value HLGamma(Value a) { return out(lgamma(p(s(a)))); }
  public static Value HGammaP(Value a, Value c) {   // regularized lower incomplete gamma P(a, x)
    String xs = s(c);
    if (xs.equals("inf")) return new StringValue("1");
    BigDecimal q = p(s(a)), x = p(xs);
    if (x.signum() <= 0) return new StringValue("0");
    BigDecimal t = BigDecimal.ONE, r = BigDecimal.ONE;
    for (int k = 1; k < 6000; k++) {
      t = t.multiply(x, WC).divide(q.add(BigDecimal.valueOf(k), WC), WC);
      r = r.add(t, WC);
      if (t.compareTo(r.multiply(new BigDecimal("1e-62"), WC)) < 0) break;
    }
    BigDecimal f = exp(q.multiply(log(x), WC).subtract(x, WC).subtract(lgamma(q.add(BigDecimal.ONE, WC)), WC));
    return out(f.multiply(r, WC));
  }
  static BigDecimal betai(BigDecimal a, BigDecimal b, BigDecimal x) {
    if (x.signum() <= 0) return BigDecimal.ZERO;
    if (x.compareTo(BigDecimal.ONE) >= 0) return BigDecimal.ONE;
    if (x.compareTo(HALF) > 0) return BigDecimal.ONE.subtract(betai(b, a, BigDecimal.ONE.subtract(x, WC)), WC);
    BigDecimal t = BigDecimal.ONE, r = BigDecimal.ONE;
    for (int k = 0; k < 20000; k++) {
      t = t.multiply(x, WC).multiply(a.add(b, WC).add(BigDecimal.valueOf(k), WC), WC).divide(a.add(BigDecimal.valueOf(k + 1), WC), WC);
      r = r.add(t, WC);
      if (t.compareTo(r.multiply(new BigDecimal("1e-60"), WC)) < 0) break;
    }
    BigDecimal f = exp(a.multiply(log(x), WC).add(b.multiply(log(BigDecimal.ONE.subtract(x, WC)), WC), WC)
        .add(lgamma(a.add(b, WC)), WC).subtract(lgamma(a.add(BigDecimal.ONE, WC)), WC).subtract(lgamma(b), WC));
    return f.multiply(r, WC);
  }
  public static Value HBetaI(Value a, Value c, Value x) { return out(betai(p(s(a)), p(s(c)), p(s(x)))); }
  static BigDecimal atan(BigDecimal x) {
    if (x.signum() < 0) return atan(x.negate()).negate();
    if (x.compareTo(BigDecimal.ONE) > 0)
      return pi().divide(TWO, WC).subtract(atan(BigDecimal.ONE.divide(x, WC)), WC);
    int n = 0;
    while (x.compareTo(new BigDecimal("0.05")) > 0) {
      x = x.divide(BigDecimal.ONE.add(BigDecimal.ONE.add(x.multiply(x, WC), WC).sqrt(WC), WC), WC); n++;
    }
    BigDecimal x2 = x.multiply(x, WC), t = x, r = x;
    for (int k = 1; k < 200; k++) {
      t = t.multiply(x2, WC).negate();
      BigDecimal u = t.divide(BigDecimal.valueOf(2 * k + 1), WC);
      r = r.add(u, WC);
      if (u.abs().compareTo(new BigDecimal("1e-78")) < 0) break;
    }
    return r.multiply(TWO.pow(n), WC);
  }
  public static Value HAtan(Value a) { return out(atan(p(s(a)))); }
  public static Value HMean(Value a) {
    Value[] v = seq(a);
    BigDecimal r = BigDecimal.ZERO;
    for (Value q : v) { if (!fin(s(q))) return nan(); r = r.add(p(s(q)), WC); }
    return out(r.divide(BigDecimal.valueOf(v.length), WC));
  }
  /* solution of a x = b by elimination with partial pivoting; <<>> if singular */
  public static Value HSolve(Value a, Value c) {
    Value[] rows = seq(a), rhs = seq(c);
    int n = rhs.length;
    BigDecimal[][] m = new BigDecimal[n][n + 1];
    for (int i = 0; i < n; i++) {
      Value[] r = seq(rows[i]);
      for (int j = 0; j < n; j++) m[i][j] = p(s(r[j]));
      m[i][n] = p(s(rhs[i]));
    }
    for (int k = 0; k < n; k++) {
      int q = k;
      for (int i = k + 1; i < n; i++) if (m[i][k].abs().compareTo(m[q][k].abs()) > 0) q = i;
      if (m[q][k].signum() == 0) return new TupleValue(new Value[0]);
      BigDecimal[] t = m[k]; m[k] = m[q]; m[q] = t;
      for (int i = k + 1; i < n; i++) {
        if (m[i][k].signum() == 0) continue;
        BigDecimal f = m[i][k].divide(m[k][k], WC);
        for (int j = k; j <= n; j++) m[i][j] = m[i][j].subtract(f.multiply(m[k][j], WC), WC);
      }
    }
    BigDecimal[] x = new BigDecimal[n];
    for (int i = n - 1; i >= 0; i--) {
      BigDecimal t = m[i][n];
      for (int j = i + 1; j < n; j++) t = t.subtract(m[i][j].multiply(x[j], WC), WC);
      x[i] = t.divide(m[i][i], WC);
    }
    Value[] o = new Value[n];
    for (int i = 0; i < n; i++) o[i] = out(x[i]);
    return new TupleValue(o);
  }
}
