// Java module override for spec/Num.tla: exact rational and high-precision complex arithmetic on
// values carried as strings.  TLC calls the static methods below in place of the TLA+ operators of
// the same name.  No semantics of wrenfold lives here, only primitive numerics.
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.TupleValue;

public class Num {
  static final MathContext MC = new MathContext(64, RoundingMode.HALF_EVEN);
  static final MathContext MO = new MathContext(58, RoundingMode.HALF_EVEN);
  static final BigDecimal ZERO = BigDecimal.ZERO, ONE = BigDecimal.ONE, TWO = BigDecimal.valueOf(2);
  static final BigDecimal SNAP = new BigDecimal("1e-44");
  static final BigDecimal PI = new BigDecimal(
      "3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798");
  static final BigDecimal HALFPI = PI.divide(TWO);
  static final BigDecimal LN2 = new BigDecimal(
      "0.693147180559945309417232121458176568075500134360255254120680009493393621969694715605863326996418687");
  static final BigDecimal E = new BigDecimal(
      "2.71828182845904523536028747135266249775724709369995957496696762772407663035354759457138217852516642742");
  static final int MAXBITS = 2400;

  // ---- exact rationals -------------------------------------------------------------------------
  static final class Q {
    final BigInteger n, d;
    Q(BigInteger n, BigInteger d) {
      if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      BigInteger g = n.gcd(d);
      if (!g.equals(BigInteger.ONE) && g.signum() != 0) { n = n.divide(g); d = d.divide(g); }
      this.n = n; this.d = d;
    }
    static final Q Z = new Q(BigInteger.ZERO, BigInteger.ONE);
    Q add(Q o) { return new Q(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d)); }
    Q neg() { return new Q(n.negate(), d); }
    Q mul(Q o) { return new Q(n.multiply(o.n), d.multiply(o.d)); }
    Q inv() { return new Q(d, n); }
    int sg() { return n.signum(); }
    boolean big() { return n.bitLength() > MAXBITS || d.bitLength() > MAXBITS; }
    boolean isInt() { return d.equals(BigInteger.ONE); }
    BigDecimal dec() { return new BigDecimal(n).divide(new BigDecimal(d), MC); }
    int cmp(Q o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
    public String toString() { return isInt() ? n.toString() : n + "/" + d; }
    static Q parse(String s) {
      int i = s.indexOf('/');
      if (i < 0) return new Q(new BigInteger(s), BigInteger.ONE);
      return new Q(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
    }
  }

  // ---- complex values: exact (both parts rational) or approximate -------------------------------
  static final class C {
    final Q qr, qi;            // exact parts, or null
    final BigDecimal r, i;     // always available for approximate ones
    C(Q a, Q b) {
      if (a.big() || b.big()) { qr = null; qi = null; r = a.dec(); i = b.dec(); }
      else { qr = a; qi = b; r = null; i = null; }
    }
    C(BigDecimal a, BigDecimal b) { qr = null; qi = null; r = a; i = b; }
    boolean ex() { return qr != null; }
    BigDecimal re() { return r != null ? r : qr.dec(); }
    BigDecimal im() { return i != null ? i : qi.dec(); }
    boolean real() { return ex() ? qi.sg() == 0 : i.signum() == 0; }
    int rs() { return ex() ? qr.sg() : r.signum(); }
    int is() { return ex() ? qi.sg() : i.signum(); }
    boolean zero() { return rs() == 0 && is() == 0; }
    boolean isInt() { return ex() && qi.sg() == 0 && qr.isInt(); }
    public String toString() {
      if (ex()) return qi.sg() == 0 ? qr.toString() : qr + "|" + qi;
      String a = r.round(MO).stripTrailingZeros().toString();
      if (i.signum() == 0) return "~" + a;
      return "~" + a + "|" + i.round(MO).stripTrailingZeros().toString();
    }
  }
  static final class Undef extends RuntimeException {
    Undef() { super("undef", null, false, false); }
  }
  static final Undef UND = new Undef();
  static C parse(String s) {
    if (s.equals("U") || s.equals("Z") || s.equals("T") || s.equals("F")) throw UND;
    try {
      if (s.charAt(0) == '~') {
        int k = s.indexOf('|');
        if (k < 0) return new C(new BigDecimal(s.substring(1)), ZERO);
        return new C(new BigDecimal(s.substring(1, k)), new BigDecimal(s.substring(k + 1)));
      }
      int k = s.indexOf('|');
      if (k < 0) return new C(Q.parse(s), Q.Z);
      return new C(Q.parse(s.substring(0, k)), Q.parse(s.substring(k + 1)));
    } catch (NumberFormatException e) {
      throw new RuntimeException("Num: cannot parse value '" + s + "'");
    }
  }
  static C q(long n) { return new C(new Q(BigInteger.valueOf(n), BigInteger.ONE), Q.Z); }
  static C q(long n, long d) {
    return new C(new Q(BigInteger.valueOf(n), BigInteger.valueOf(d)), Q.Z);
  }
  static final C C0 = q(0), C1 = q(1), CI = new C(Q.Z, Q.parse("1")), CM1 = q(-1);

  // exponent (decimal) guard: magnitudes outside 10^+-4000 are treated as undefined
  static BigDecimal guard(BigDecimal x) {
    if (x.signum() != 0) {
      long e = (long) x.precision() - (long) x.scale();
      if (e > 4000 || e < -4000) throw UND;
    }
    return x;
  }
  static C mk(BigDecimal a, BigDecimal b) { // snap the negligible part
    guard(a); guard(b);
    BigDecimal aa = a.abs(), bb = b.abs();
    if (aa.compareTo(bb.multiply(SNAP, MC)) <= 0) a = ZERO;
    if (bb.compareTo(aa.multiply(SNAP, MC)) <= 0) b = ZERO;
    return new C(a.round(MC), b.round(MC));
  }
  static BigDecimal addSnap(BigDecimal a, BigDecimal b, BigDecimal scale) {
    BigDecimal s = a.add(b, MC);
    if (s.abs().compareTo(scale.multiply(SNAP, MC)) <= 0) return ZERO;
    return s;
  }
  static BigDecimal mag1(C a) { return a.re().abs().max(a.im().abs()); }
  static C add(C a, C b) {
    if (a.ex() && b.ex()) return new C(a.qr.add(b.qr), a.qi.add(b.qi));
    BigDecimal sc = mag1(a).max(mag1(b));
    return mk(addSnap(a.re(), b.re(), sc), addSnap(a.im(), b.im(), sc));
  }
  static C neg(C a) { return a.ex() ? new C(a.qr.neg(), a.qi.neg()) : new C(a.r.negate(), a.i.negate()); }
  static C sub(C a, C b) { return add(a, neg(b)); }
  static C mul(C a, C b) {
    if (a.ex() && b.ex())
      return new C(a.qr.mul(b.qr).add(a.qi.mul(b.qi).neg()), a.qr.mul(b.qi).add(a.qi.mul(b.qr)));
    BigDecimal ar = a.re(), ai = a.im(), br = b.re(), bi = b.im();
    if (ai.signum() == 0 && bi.signum() == 0) return new C(guard(ar.multiply(br, MC)), ZERO);
    return mk(ar.multiply(br, MC).subtract(ai.multiply(bi, MC), MC),
        ar.multiply(bi, MC).add(ai.multiply(br, MC), MC));
  }
  static C inv(C a) {
    if (a.zero()) throw UND;
    if (a.ex()) {
      Q m = a.qr.mul(a.qr).add(a.qi.mul(a.qi)).inv();
      return new C(a.qr.mul(m), a.qi.neg().mul(m));
    }
    if (a.i.signum() == 0) return new C(guard(ONE.divide(a.r, MC)), ZERO);
    BigDecimal m = a.r.multiply(a.r, MC).add(a.i.multiply(a.i, MC), MC);
    return mk(a.r.divide(m, MC), a.i.negate().divide(m, MC));
  }
  static C div(C a, C b) { return mul(a, inv(b)); }
  static C scale(C a, long n, long d) { return mul(a, q(n, d)); }

  // ---- real elementary functions ----------------------------------------------------------------
  static BigDecimal rexp(BigDecimal x) {
    if (x.signum() == 0) return ONE;
    if (x.abs().compareTo(BigDecimal.valueOf(9000)) > 0) throw UND;
    BigInteger kk = x.divide(LN2, MC).setScale(0, RoundingMode.HALF_EVEN).toBigInteger();
    int k = kk.intValue();
    MathContext m = new MathContext(74);
    BigDecimal y = x.subtract(LN2.multiply(BigDecimal.valueOf(k)), m);
    y = y.divide(BigDecimal.valueOf(1 << 10), m);
    BigDecimal s = ONE, t = ONE;
    for (int n = 1; n < 40; n++) {
      t = t.multiply(y, m).divide(BigDecimal.valueOf(n), m);
      if (t.signum() == 0 || t.precision() - t.scale() < -74) break;
      s = s.add(t, m);
    }
    for (int j = 0; j < 10; j++) s = s.multiply(s, m);
    BigDecimal p = TWO.pow(Math.abs(k), m);
    return (k >= 0 ? s.multiply(p, MC) : s.divide(p, MC));
  }
  static BigDecimal rlog(BigDecimal x) { // x > 0
    if (x.compareTo(ONE) == 0) return ZERO;
    int e = x.precision() - x.scale(); // x = 0.ddd * 10^e
    BigDecimal f = x.scaleByPowerOfTen(-e);
    double y0 = Math.log(f.doubleValue());
    BigDecimal y = new BigDecimal(y0);
    MathContext m = new MathContext(72);
    BigDecimal d = f.multiply(rexp2(y.negate()), m).subtract(ONE, m);
    BigDecimal s = ZERO, t = d;
    for (int n = 1; n <= 6; n++) {
      BigDecimal u = t.divide(BigDecimal.valueOf(n), m);
      s = (n % 2 == 1) ? s.add(u, m) : s.subtract(u, m);
      t = t.multiply(d, m);
    }
    BigDecimal r = y.add(s, m);
    if (e != 0) {
      r = r.add(ln10().multiply(BigDecimal.valueOf(e)), m);
      // near x = 1 the two terms cancel; recompute without the decimal exponent split
      if (r.abs().compareTo(new BigDecimal("0.2")) < 0) {
        y = new BigDecimal(Math.log(x.doubleValue()));
        d = x.multiply(rexp2(y.negate()), m).subtract(ONE, m);
        s = ZERO; t = d;
        for (int n = 1; n <= 6; n++) {
          BigDecimal u = t.divide(BigDecimal.valueOf(n), m);
          s = (n % 2 == 1) ? s.add(u, m) : s.subtract(u, m);
          t = t.multiply(d, m);
        }
        r = y.add(s, m);
      }
    }
    return r.round(MC);
  }
  static BigDecimal rexp2(BigDecimal x) { return rexp(x); }
  static BigDecimal LN10 = null;
  static BigDecimal ln10() {
    if (LN10 == null)
      LN10 = new BigDecimal(
          "2.30258509299404568401799145468436420760110148862877297603332790096757260967735248023599720508959830");
    return LN10;
  }
  static BigDecimal[] rsincos(BigDecimal x) { // {sin, cos}
    if (x.abs().compareTo(new BigDecimal("1e15")) > 0) throw UND;
    BigInteger k = x.divide(HALFPI, MC).setScale(0, RoundingMode.HALF_EVEN).toBigInteger();
    MathContext m = new MathContext(74);
    BigDecimal y = x.subtract(HALFPI.multiply(new BigDecimal(k)), m);
    BigDecimal z = y.divide(BigDecimal.valueOf(16), m), z2 = z.multiply(z, m);
    // sin and (1 - cos) by Taylor, then four doublings
    BigDecimal s = z, t = z;
    for (int n = 1; n < 60; n++) {
      t = t.multiply(z2, m).divide(BigDecimal.valueOf(-(2L * n) * (2L * n + 1)), m);
      if (t.signum() == 0 || t.precision() - t.scale() < -78) break;
      s = s.add(t, m);
    }
    BigDecimal v = ZERO; t = ONE; // v = 1 - cos
    for (int n = 1; n < 60; n++) {
      t = t.multiply(z2, m).divide(BigDecimal.valueOf(-(2L * n) * (2L * n - 1)), m);
      if (t.signum() == 0 || t.precision() - t.scale() < -78) break;
      v = v.subtract(t, m);
    }
    for (int j = 0; j < 4; j++) { // s' = 2 s c, v' = 2 s^2
      BigDecimal c = ONE.subtract(v, m);
      BigDecimal s2 = s.multiply(s, m);
      s = TWO.multiply(s).multiply(c, m);
      v = TWO.multiply(s2, m);
    }
    BigDecimal c = ONE.subtract(v, m);
    BigDecimal lim = new BigDecimal("1e-46");
    if (s.abs().compareTo(lim) < 0) s = ZERO;
    if (c.abs().compareTo(lim) < 0) c = ZERO;
    switch (k.mod(BigInteger.valueOf(4)).intValue()) {
      case 0: return new BigDecimal[] {s.round(MC), c.round(MC)};
      case 1: return new BigDecimal[] {c.round(MC), s.negate().round(MC)};
      case 2: return new BigDecimal[] {s.negate().round(MC), c.negate().round(MC)};
      default: return new BigDecimal[] {c.negate().round(MC), s.round(MC)};
    }
  }
  static BigDecimal rsqrt(BigDecimal x) { return x.signum() == 0 ? ZERO : x.sqrt(MC); }
  static BigDecimal ratan2(BigDecimal y, BigDecimal x) {
    if (y.signum() == 0) {
      if (x.signum() == 0) throw UND;
      return x.signum() > 0 ? ZERO : PI.round(MC);
    }
    if (x.signum() == 0) return y.signum() > 0 ? HALFPI.round(MC) : HALFPI.negate().round(MC);
    // scale so that doubles do not overflow
    int e = Math.max(x.precision() - x.scale(), y.precision() - y.scale());
    BigDecimal xs = x.scaleByPowerOfTen(-e), ys = y.scaleByPowerOfTen(-e);
    BigDecimal n = rsqrt(xs.multiply(xs, MC).add(ys.multiply(ys, MC), MC));
    xs = xs.divide(n, MC); ys = ys.divide(n, MC);
    BigDecimal t0 = new BigDecimal(Math.atan2(ys.doubleValue(), xs.doubleValue()));
    BigDecimal[] sc = rsincos(t0);
    BigDecimal d = ys.multiply(sc[1], MC).subtract(xs.multiply(sc[0], MC), MC);
    // sin(theta - t0) = d ; asin series
    BigDecimal d2 = d.multiply(d, MC);
    BigDecimal r = d.add(d.multiply(d2, MC).divide(BigDecimal.valueOf(6), MC), MC)
        .add(d.multiply(d2, MC).multiply(d2, MC).multiply(new BigDecimal("0.075"), MC), MC);
    // for tiny angles relative accuracy: t0 dominates anyway
    return t0.add(r, MC);
  }

  // ---- complex elementary functions ---------------------------------------------------------------
  static C fromReal(BigDecimal x) { return new C(guard(x), ZERO); }
  static BigDecimal cabs(C a) {
    if (a.is() == 0) return a.re().abs();
    if (a.rs() == 0) return a.im().abs();
    BigDecimal r = a.re(), i = a.im();
    return rsqrt(r.multiply(r, MC).add(i.multiply(i, MC), MC));
  }
  static C exp(C a) {
    if (a.zero()) return C1;
    BigDecimal m = rexp(a.re());
    if (a.is() == 0) return fromReal(m);
    BigDecimal[] sc = rsincos(a.im());
    return mk(m.multiply(sc[1], MC), m.multiply(sc[0], MC));
  }
  static C log(C a) {
    if (a.zero()) throw UND;
    if (a.ex() && a.real() && a.qr.toString().equals("1")) return C0;
    BigDecimal m = rlog(cabs(a));
    if (a.is() == 0 && a.rs() > 0) return fromReal(m);
    return mk(m, ratan2(a.im(), a.re()));
  }
  static Q qsqrt(Q x) {
    BigInteger a = x.n.sqrt(), b = x.d.sqrt();
    if (a.multiply(a).equals(x.n) && b.multiply(b).equals(x.d)) return new Q(a, b);
    return null;
  }
  static C sqrt(C a) {
    if (a.zero()) return C0;
    if (a.is() == 0) {
      if (a.ex()) {
        Q s = qsqrt(a.rs() > 0 ? a.qr : a.qr.neg());
        if (s != null) return a.rs() > 0 ? new C(s, Q.Z) : new C(Q.Z, s);
      }
      BigDecimal s = rsqrt(a.re().abs());
      return a.rs() > 0 ? new C(s, ZERO) : new C(ZERO, s);
    }
    BigDecimal m = cabs(a), r = a.re(), i = a.im();
    if (r.signum() >= 0) {
      BigDecimal u = rsqrt(m.add(r, MC).divide(TWO, MC));
      return mk(u, i.divide(TWO.multiply(u), MC));
    }
    BigDecimal v = rsqrt(m.subtract(r, MC).divide(TWO, MC));
    if (i.signum() < 0) v = v.negate();
    return mk(i.divide(TWO.multiply(v), MC), v);
  }
  static C ipow(C a, long n) {
    if (n == 0) return C1;
    if (n < 0) return inv(ipow(a, -n));
    C r = null, b = a;
    while (n > 0) {
      if ((n & 1) == 1) r = (r == null) ? b : mul(r, b);
      n >>= 1;
      if (n > 0) b = mul(b, b);
    }
    return r;
  }
  static Q qroot(Q x, int k) { // exact k-th root of positive rational, or null
    BigInteger a = iroot(x.n, k), b = iroot(x.d, k);
    if (a == null || b == null) return null;
    return new Q(a, b);
  }
  static BigInteger iroot(BigInteger x, int k) {
    if (x.bitLength() > 1000) return null;
    BigInteger lo = BigInteger.ZERO, hi = BigInteger.ONE.shiftLeft(x.bitLength() / k + 1);
    while (lo.compareTo(hi) < 0) {
      BigInteger m = lo.add(hi).add(BigInteger.ONE).shiftRight(1);
      if (m.pow(k).compareTo(x) <= 0) lo = m; else hi = m.subtract(BigInteger.ONE);
    }
    return lo.pow(k).equals(x) ? lo : null;
  }
  static C pow(C a, C b) {
    if (b.isInt()) {
      BigInteger n = b.qr.n;
      if (a.zero()) {
        if (n.signum() <= 0) throw UND; // 0**0 and 0**-n
        return C0;
      }
      if (a.ex() && a.real() && a.qr.isInt() && a.qr.n.abs().equals(BigInteger.ONE))
        return (a.rs() > 0 || !n.testBit(0)) ? C1 : CM1;
      if (n.bitLength() < 13) return ipow(a, n.longValue());
    }
    if (a.zero()) {
      if (b.rs() > 0) return C0;
      throw UND;
    }
    if (b.ex() && b.real() && b.qr.d.equals(TWOI) && b.qr.n.bitLength() < 13) {
      // half-integer power of the principal square root
      return ipow(sqrt(a), b.qr.n.longValue());
    }
    if (a.ex() && a.real() && a.rs() > 0 && b.ex() && b.real() && b.qr.d.bitLength() < 8
        && b.qr.n.bitLength() < 11) {
      Q r = qroot(a.qr, b.qr.d.intValue());
      if (r != null) return ipow(new C(r, Q.Z), b.qr.n.longValue());
    }
    return exp(mul(b, log(a)));
  }
  static final BigInteger TWOI = BigInteger.valueOf(2);
  static C imul(C a) { return a.ex() ? new C(a.qi.neg(), a.qr) : new C(a.i.negate(), a.r); } // i*a
  static C mimul(C a) { return a.ex() ? new C(a.qi, a.qr.neg()) : new C(a.i, a.r.negate()); } // -i*a
  static C sinh(C a) {
    if (a.zero()) return C0;
    if (a.is() == 0 && cabs(a).compareTo(new BigDecimal("0.5")) < 0) { // series, no cancellation
      BigDecimal x = a.re(), x2 = x.multiply(x, MC), t = x, s = x;
      for (int n = 1; n < 40; n++) {
        t = t.multiply(x2, MC).divide(BigDecimal.valueOf((2L * n) * (2L * n + 1)), MC);
        s = s.add(t, MC);
      }
      return fromReal(s);
    }
    return scale(sub(exp(a), exp(neg(a))), 1, 2);
  }
  static C cosh(C a) { return a.zero() ? C1 : scale(add(exp(a), exp(neg(a))), 1, 2); }
  static C sin(C a) {
    if (a.zero()) return C0;
    if (a.is() == 0) return fromReal(rsincos(a.re())[0]);
    return mimul(sinh(imul(a)));
  }
  static C cos(C a) {
    if (a.zero()) return C1;
    if (a.is() == 0) return fromReal(rsincos(a.re())[1]);
    return cosh(imul(a));
  }
  static C atan(C a) {
    if (a.zero()) return C0;
    if (a.is() == 0) return fromReal(ratan2(a.re(), ONE));
    // (i/2) (log(1 - i a) - log(1 + i a))
    return scale(imul(sub(log(sub(C1, imul(a))), log(add(C1, imul(a))))), 1, 2);
  }
  static boolean cutValues = false;
  static boolean within1(C a) { return a.is() == 0 && a.re().abs().compareTo(ONE) <= 0; }
  static C asin(C a) {
    if (a.zero()) return C0;
    if (within1(a)) {
      BigDecimal x = a.re();
      return fromReal(ratan2(x, rsqrt(ONE.subtract(x, MC).multiply(ONE.add(x, MC), MC))));
    }
    if (a.is() == 0 && !cutValues) throw UND; // on the cut: the side is a convention
    if (a.is() == 0) { // on the cut; odd: asin(x) = sign(x) (pi/2 - i log(|x| + sqrt(x^2 - 1)))
      BigDecimal x = a.re().abs();
      BigDecimal l = rlog(x.add(rsqrt(x.subtract(ONE, MC).multiply(x.add(ONE, MC), MC)), MC));
      C v = mk(HALFPI, l.negate());
      return a.rs() > 0 ? v : neg(v);
    }
    return mimul(log(add(imul(a), sqrt(sub(C1, mul(a, a))))));
  }
  static C acos(C a) {
    if (within1(a)) {
      BigDecimal x = a.re();
      if (x.compareTo(ONE) == 0) return C0;
      return fromReal(ratan2(rsqrt(ONE.subtract(x, MC).multiply(ONE.add(x, MC), MC)), x));
    }
    return sub(fromReal(HALFPI.round(MC)), asin(a));
  }
  static C asinh(C a) {
    if (a.zero()) return C0;
    if (a.is() == 0) {
      BigDecimal x = a.re().abs();
      BigDecimal l = rlog(x.add(rsqrt(x.multiply(x, MC).add(ONE, MC)), MC));
      return fromReal(a.rs() > 0 ? l : l.negate());
    }
    return mimul(asin(imul(a)));
  }
  static C acosh(C a) { // log(a + sqrt(a-1) sqrt(a+1))
    if (a.ex() && a.real() && a.qr.toString().equals("1")) return C0;
    return log(add(a, mul(sqrt(sub(a, C1)), sqrt(add(a, C1)))));
  }
  static C atanh(C a) {
    if (a.zero()) return C0;
    C p = add(C1, a), m = sub(C1, a);
    if (p.zero() || m.zero()) throw UND;
    if (a.is() == 0) {
      if (within1(a)) return fromReal(rlog(p.re().divide(m.re(), MC)).divide(TWO, MC));
      if (!cutValues) throw UND;
      BigDecimal x = a.re().abs();
      BigDecimal l = rlog(x.add(ONE, MC).divide(x.subtract(ONE, MC), MC)).divide(TWO, MC);
      C v = mk(l, HALFPI.negate());
      return a.rs() > 0 ? v : neg(v);
    }
    return scale(sub(log(p), log(m)), 1, 2);
  }

  static C fn(String f, C a) {
    switch (f) {
      case "exp": return exp(a);
      case "log": return log(a);
      case "sqrt": return sqrt(a);
      case "sin": return sin(a);
      case "cos": return cos(a);
      case "tan": { C c = cos(a); return div(sin(a), c); }
      case "sinh": return sinh(a);
      case "cosh": return cosh(a);
      case "tanh": { C c = cosh(a); return div(sinh(a), c); }
      case "asin": return asin(a);
      case "acos": return acos(a);
      case "atan": {
        if (a.ex() && a.qr.sg() == 0 && a.qi.isInt() && a.qi.n.abs().equals(BigInteger.ONE)) throw UND;
        return atan(a);
      }
      case "asinh": return asinh(a);
      case "acosh": return acosh(a);
      case "atanh": return atanh(a);
      case "abs":
        if (a.real() && a.ex()) return new C(a.rs() < 0 ? a.qr.neg() : a.qr, Q.Z);
        return fromReal(cabs(a));
      default: throw new RuntimeException("Num: unknown function " + f);
    }
  }
  static BigDecimal snapInt(BigDecimal x) { // nearest integer when (relatively) indistinguishable
    BigDecimal n = x.setScale(0, RoundingMode.HALF_EVEN);
    BigDecimal sc = x.abs().max(ONE).multiply(new BigDecimal("1e-40"), MC);
    return x.subtract(n).abs().compareTo(sc) <= 0 ? n : x;
  }

  // ---- exported operators --------------------------------------------------------------------------
  static final StringValue U = new StringValue("U");
  static String s(Value v) { return ((StringValue) v).val.toString(); }
  static Value out(C c) { return new StringValue(c.toString()); }
  static int iv(Value v) { return ((IntValue) v).val; }

  public static Value NAdd(Value a, Value b) {
    try { return out(cancel(parse(s(a)), parse(s(b)))); } catch (Undef e) { return U; } }
  public static Value NSub(Value a, Value b) {
    try { return out(cancel(parse(s(a)), neg(parse(s(b))))); } catch (Undef e) { return U; } }
  // a sum of huge inexact values that cancels completely says nothing about what was added to them
  static final BigDecimal HUGE = new BigDecimal("1e15"), LOST = new BigDecimal("1e-38");
  static C cancel(C a, C b) {
    C c = add(a, b);
    if (a.ex() && b.ex()) return c;
    BigDecimal m = mag1(a).max(mag1(b));
    if (m.compareTo(HUGE) > 0 && mag1(c).compareTo(m.multiply(LOST)) < 0) throw UND;
    return c;
  }
  public static Value NMul(Value a, Value b) {
    try { return out(mul(parse(s(a)), parse(s(b)))); } catch (Undef e) { return U; } }
  public static Value NDiv(Value a, Value b) {
    try { return out(div(parse(s(a)), parse(s(b)))); } catch (Undef e) { return U; } }
  public static Value NNeg(Value a) {
    try { return out(neg(parse(s(a)))); } catch (Undef e) { return U; } }
  public static Value NPow(Value a, Value b) {
    try { return out(pow(parse(s(a)), parse(s(b)))); } catch (Undef e) { return U; } }
  public static Value NFn(Value f, Value a) {
    try { return out(fn(s(f), parse(s(a)))); } catch (Undef e) { return U; } }
  public static Value NAtan2(Value y, Value x) {
    try {
      C b = parse(s(x)), a = parse(s(y));
      if (!a.real() || !b.real()) return U;
      if (a.ex() && a.zero() && b.rs() > 0) return out(C0);
      return out(fromReal(ratan2(a.re(), b.re())));
    } catch (Undef e) { return U; } }
  public static Value NFloor(Value x) {
    try {
      C a = parse(s(x));
      if (!a.real()) return U;
      if (a.ex()) {
        BigInteger[] qr = a.qr.n.divideAndRemainder(a.qr.d);
        BigInteger f = qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
        return out(new C(new Q(f, BigInteger.ONE), Q.Z));
      }
      BigDecimal r = snapInt(a.r).setScale(0, RoundingMode.FLOOR);
      return out(new C(new Q(r.toBigInteger(), BigInteger.ONE), Q.Z));
    } catch (Undef e) { return U; } }
  public static Value NTrunc(Value x) { // C-style conversion to integer
    try {
      C a = parse(s(x));
      if (!a.real()) return U;
      BigDecimal r = snapInt(a.re()).setScale(0, RoundingMode.DOWN);
      return out(new C(new Q(r.toBigInteger(), BigInteger.ONE), Q.Z));
    } catch (Undef e) { return U; } }
  // order of two real values: "lt", "eq", "gt", or "un" when either is not real
  public static Value NCmp(Value x, Value y) {
    try {
      C a = parse(s(x)), b = parse(s(y));
      if (!a.real() || !b.real()) return new StringValue("un");
      int c;
      if (a.ex() && b.ex()) c = a.qr.cmp(b.qr);
      else {
        BigDecimal d = a.re().subtract(b.re(), MC);
        BigDecimal sc = a.re().abs().max(b.re().abs()).multiply(new BigDecimal("1e-40"), MC);
        c = d.abs().compareTo(sc) <= 0 ? 0 : d.signum();
      }
      return new StringValue(c < 0 ? "lt" : c > 0 ? "gt" : "eq");
    } catch (Undef e) { return new StringValue("un"); } }
  public static Value NIsReal(Value x) {
    try { return parse(s(x)).real() ? BoolValue.ValTrue : BoolValue.ValFalse; }
    catch (Undef e) { return BoolValue.ValFalse; } }
  public static Value NIsZero(Value x) {
    try { return parse(s(x)).zero() ? BoolValue.ValTrue : BoolValue.ValFalse; }
    catch (Undef e) { return BoolValue.ValFalse; } }
  public static Value NIsExact(Value x) {
    try { return parse(s(x)).ex() ? BoolValue.ValTrue : BoolValue.ValFalse; }
    catch (Undef e) { return BoolValue.ValFalse; } }
  public static Value NIsInt(Value x) {
    try { return parse(s(x)).isInt() ? BoolValue.ValTrue : BoolValue.ValFalse; }
    catch (Undef e) { return BoolValue.ValFalse; } }
  // |a - b| <= 10^-digits * max(scale, |a|, |b|)
  public static Value NClose(Value x, Value y, Value digits, Value scale) {
    try {
      String sx = s(x), sy = s(y);
      if (sx.equals(sy)) return sx.equals("U") ? BoolValue.ValFalse : BoolValue.ValTrue;
      C a = parse(sx), b = parse(sy);
      if (a.ex() && b.ex() && a.qr.cmp(b.qr) == 0 && a.qi.cmp(b.qi) == 0) return BoolValue.ValTrue;
      BigDecimal sc = cabs(parse(s(scale))).max(cabs(a)).max(cabs(b));
      BigDecimal dr = a.re().subtract(b.re(), MC), di = a.im().subtract(b.im(), MC);
      BigDecimal d = cabs(new C(dr, di));
      return d.compareTo(sc.scaleByPowerOfTen(-iv(digits))) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    } catch (Undef e) { return BoolValue.ValFalse; } }
  // modulus of the difference (for error estimates)
  public static Value NDist(Value x, Value y) {
    try {
      C a = parse(s(x)), b = parse(s(y));
      BigDecimal dr = a.re().subtract(b.re(), MC), di = a.im().subtract(b.im(), MC);
      return out(fromReal(cabs(new C(dr, di))));
    } catch (Undef e) { return U; } }
  // relative perturbation by k/8 * 2^-bits, k in -8..8 derived from seed and the value's text
  public static Value NPerturb(Value x, Value bits, Value seed) {
    try {
      String t = s(x);
      C a = parse(t);
      if (a.zero()) return x;
      int h = (t.hashCode() * 31 + iv(seed)) * 0x9E3779B1;
      int k = ((h >>> 16) % 17) - 8;
      if (k == 0) k = 5;
      BigInteger den = BigInteger.ONE.shiftLeft(3 + iv(bits));
      // a non-real value is also rotated a little, so that it leaves every branch cut it lies on
      int k2 = ((h >>> 8) & 1) == 0 ? 3 : -3;
      boolean real = NIsReal(x) == BoolValue.ValTrue;
      C f = add(C1, new C(new Q(BigInteger.valueOf(k), den), real ? Q.Z : new Q(BigInteger.valueOf(k2), den)));
      return out(mul(a, f));
    } catch (Undef e) { return U; } }
  public static Value NIsShort(Value x, Value bits) {
    try {
      C a = parse(s(x));
      if (!a.ex() || a.qi.sg() != 0) return BoolValue.ValFalse;
      BigInteger d = a.qr.d, m = a.qr.n.abs();
      if (d.bitCount() != 1 || d.bitLength() > iv(bits)) return BoolValue.ValFalse;
      int z = m.signum() == 0 ? 0 : m.getLowestSetBit();
      return m.bitLength() - z <= iv(bits) ? BoolValue.ValTrue : BoolValue.ValFalse;
    } catch (Undef e) { return BoolValue.ValFalse; } }
  // int64 range and lowest-terms predicates on exact values
  static final BigInteger I64MAX = BigInteger.valueOf(Long.MAX_VALUE), I64MIN = BigInteger.valueOf(Long.MIN_VALUE);
  static boolean fits(BigInteger b) { return b.compareTo(I64MAX) <= 0 && b.compareTo(I64MIN) >= 0; }
  public static Value NFits64(Value x) {
    try {
      C a = parse(s(x));
      return a.ex() && a.qi.sg() == 0 && fits(a.qr.n) && fits(a.qr.d) ? BoolValue.ValTrue : BoolValue.ValFalse;
    } catch (Undef e) { return BoolValue.ValFalse; } }
  public static Value NNumer(Value x) {
    try { C a = parse(s(x)); return a.ex() ? new StringValue(a.qr.n.toString()) : U; } catch (Undef e) { return U; } }
  public static Value NDenom(Value x) {
    try { C a = parse(s(x)); return a.ex() ? new StringValue(a.qr.d.toString()) : U; } catch (Undef e) { return U; } }
  public static Value NConst(Value name) {
    switch (s(name)) {
      case "pi": return out(fromReal(PI.round(MC)));
      case "e": return out(fromReal(E.round(MC)));
      case "i": return out(CI);
      default: return U;
    } }
  // round to the nearest IEEE double / single and back to an exact rational
  public static Value NToDouble(Value x) {
    try {
      C a = parse(s(x));
      double r = a.re().doubleValue(), i = a.im().doubleValue();
      if (Double.isInfinite(r) || Double.isInfinite(i)) return U;
      return out(new C(qd(r), qd(i)));
    } catch (Undef e) { return U; } }
  static Q qd(double d) {
    BigDecimal b = new BigDecimal(d);
    if (b.scale() <= 0) return new Q(b.toBigIntegerExact(), BigInteger.ONE);
    return new Q(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
  }
  // identity of a comparison: operator and operands to 11 significant digits (constants of generated code are rounded to double) (equality is symmetric)
  static String r20(C a) throws Undef {
    BigDecimal x = a.re();
    if (x.abs().compareTo(new BigDecimal("1e-13")) < 0) return "0";
    return x.round(new MathContext(11, RoundingMode.HALF_EVEN)).stripTrailingZeros().toString();
  }
  public static Value NRelKey(Value op, Value x, Value y) {
    try {
      if (NIsReal(x) != BoolValue.ValTrue || NIsReal(y) != BoolValue.ValTrue) return U;
      String a = r20(parse(s(x))), b = r20(parse(s(y)));
      if (s(op).equals("eq") && a.compareTo(b) > 0) { String t = a; a = b; b = t; }
      return new StringValue("?" + s(op) + " " + a + " " + b);
    } catch (Undef e) { return U; } }
  public static Value NRe(Value x) {
    try { C a = parse(s(x)); return a.ex() ? out(new C(a.qr, Q.Z)) : out(fromReal(a.r)); } catch (Undef e) { return U; } }
  public static Value NIm(Value x) {
    try { C a = parse(s(x)); return a.ex() ? out(new C(a.qi, Q.Z)) : out(fromReal(a.i)); } catch (Undef e) { return U; } }

  // command-line self test against reference values: lines "fn arg [arg]" -> result
  public static void main(String[] args) throws Exception {
    cutValues = true;
    java.io.BufferedReader r = new java.io.BufferedReader(new java.io.InputStreamReader(System.in));
    String l;
    while ((l = r.readLine()) != null) {
      String[] t = l.trim().split("\\s+");
      try {
        C v;
        switch (t[0]) {
          case "add": v = add(parse(t[1]), parse(t[2])); break;
          case "mul": v = mul(parse(t[1]), parse(t[2])); break;
          case "div": v = div(parse(t[1]), parse(t[2])); break;
          case "pow": v = pow(parse(t[1]), parse(t[2])); break;
          case "atan2": v = fromReal(ratan2(parse(t[1]).re(), parse(t[2]).re())); break;
          default: v = fn(t[0], parse(t[1]));
        }
        System.out.println(v);
      } catch (Undef e) { System.out.println("U"); }
    }
  }
}
