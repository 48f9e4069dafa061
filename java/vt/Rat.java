package vt;

import java.math.BigInteger;

/** Exact rational n * 2^e / d, d odd and positive, n odd or 0. NaN is a value
 *  for which every comparison is false. */
public final class Rat {
  static final BigInteger ONE = BigInteger.ONE;
  final BigInteger n;
  final int e;
  final BigInteger d;
  final boolean nan;
  public static final Rat ZERO = new Rat(BigInteger.ZERO, 0, ONE, false);
  public static final Rat NAN = new Rat(BigInteger.ZERO, 0, ONE, true);

  private Rat(BigInteger n, int e, BigInteger d, boolean nan) {
    this.n = n;
    this.e = e;
    this.d = d;
    this.nan = nan;
  }

  static Rat norm(BigInteger n, int e, BigInteger d) {
    if (n.signum() == 0) return ZERO;
    int tz = n.getLowestSetBit();
    if (tz > 0) {
      n = n.shiftRight(tz);
      e += tz;
    }
    if (!d.equals(ONE)) {
      BigInteger g = n.gcd(d);
      if (!g.equals(ONE)) {
        n = n.divide(g);
        d = d.divide(g);
      }
    }
    return new Rat(n, e, d, false);
  }

  public static Rat of(long v) {
    return norm(BigInteger.valueOf(v), 0, ONE);
  }

  public static Rat of(BigInteger p, BigInteger q) {
    if (q.signum() == 0) return NAN;
    if (q.signum() < 0) {
      p = p.negate();
      q = q.negate();
    }
    int tz = q.getLowestSetBit();
    return norm(p, -tz, q.shiftRight(tz));
  }

  public static Rat of(double v) {
    if (Double.isNaN(v) || Double.isInfinite(v)) return NAN;
    if (v == 0) return ZERO;
    long bits = Double.doubleToLongBits(v);
    int ex = (int) ((bits >> 52) & 0x7ffL);
    long m = bits & 0xfffffffffffffL;
    if (ex == 0)
      ex++;
    else
      m |= 1L << 52;
    BigInteger bm = BigInteger.valueOf(bits < 0 ? -m : m);
    return norm(bm, ex - 1075, ONE);
  }

  /** "p/q" with integers, or anything Double.parseDouble accepts. */
  public static Rat parse(String s) {
    int k = s.indexOf('/');
    if (k >= 0)
      return of(new BigInteger(s.substring(0, k).trim()),
                new BigInteger(s.substring(k + 1).trim()));
    String t = s.trim();
    if (t.endsWith("nan") || t.endsWith("inf")) return NAN;
    return of(Double.parseDouble(t));
  }

  private Rat addSigned(Rat o, boolean neg) {
    if (nan || o.nan) return NAN;
    if (o.n.signum() == 0) return this;
    BigInteger on = neg ? o.n.negate() : o.n;
    if (n.signum() == 0) return new Rat(on, o.e, o.d, false);
    BigInteger a = n, b = on;
    BigInteger dd = d;
    if (!d.equals(o.d)) {
      a = a.multiply(o.d);
      b = b.multiply(d);
      dd = d.multiply(o.d);
    }
    int ee;
    if (e >= o.e) {
      a = a.shiftLeft(e - o.e);
      ee = o.e;
    } else {
      b = b.shiftLeft(o.e - e);
      ee = e;
    }
    return norm(a.add(b), ee, dd);
  }

  public Rat add(Rat o) { return addSigned(o, false); }
  public Rat sub(Rat o) { return addSigned(o, true); }
  public Rat neg() { return nan ? NAN : new Rat(n.negate(), e, d, false); }
  public Rat abs() { return signum() < 0 ? neg() : this; }

  public Rat mul(Rat o) {
    if (nan || o.nan) return NAN;
    if (n.signum() == 0 || o.n.signum() == 0) return ZERO;
    BigInteger dd = d.equals(ONE) ? o.d : (o.d.equals(ONE) ? d : d.multiply(o.d));
    return norm(n.multiply(o.n), e + o.e, dd);
  }

  public Rat inv() {
    if (nan || n.signum() == 0) return NAN;
    // n odd: becomes the denominator
    BigInteger nn = d, dd = n;
    if (dd.signum() < 0) {
      nn = nn.negate();
      dd = dd.negate();
    }
    return norm(nn, -e, dd);
  }

  public Rat div(Rat o) { return mul(o.inv()); }
  public int signum() { return n.signum(); }

  public int cmp(Rat o) {
    return sub(o).signum();
  }

  public boolean lt(Rat o) { return !nan && !o.nan && cmp(o) < 0; }
  public boolean le(Rat o) { return !nan && !o.nan && cmp(o) <= 0; }
  public boolean eq(Rat o) { return !nan && !o.nan && cmp(o) == 0; }

  public double toDouble() {
    if (nan) return Double.NaN;
    if (n.signum() == 0) return 0;
    BigInteger p = n;
    int sh = 70 - (p.bitLength() - d.bitLength());
    BigInteger q = (sh >= 0 ? p.shiftLeft(sh) : p.shiftRight(-sh)).divide(d);
    int ee = e - sh;
    // q has ~70 bits
    int drop = Math.max(0, q.bitLength() - 62);
    double r = q.shiftRight(drop).longValue();
    return Math.scalb(r, Math.max(-3000, Math.min(3000, ee + drop)));
  }

  /** dyadic rational with at most k significant bits, close to this one */
  public Rat round(int k) {
    if (nan || n.signum() == 0) return this;
    if (d.equals(ONE) && n.bitLength() <= k) return this;
    int sh = k - (n.bitLength() - d.bitLength());
    BigInteger q = (sh >= 0 ? n.shiftLeft(sh) : n.shiftRight(-sh)).divide(d);
    return norm(q, e - sh, ONE);
  }

  public BigInteger num() {
    return e >= 0 ? n.shiftLeft(e) : n;
  }
  public BigInteger den() {
    return e >= 0 ? d : d.shiftLeft(-e);
  }
  @Override
  public String toString() {
    return nan ? "nan" : Double.toString(toDouble());
  }
}
