package fpv;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import java.math.BigInteger;
import java.util.Arrays;

/**
 * Shortest decimals. The oracle is exact integer arithmetic: it does not use any floating-point to
 * decimal conversion. Only reading back uses the platform's parser, whose result the exact interval
 * test confirms independently.
 */
public final class CheckC06 extends Check {
  private FastPrintf full;

  @Override
  public String level() {
    return "exploration";
  }

  @Override
  public String rule() {
    return "doubles: every binary exponent x structured and random significands, all powers of ten and"
        + " their neighbours, short decimals, random bits, and for every binary exponent the doubles whose value"
        + " or interval ends come closest to a decimal or to the middle of two; each printed with surplus digits and judged by"
        + " exact interval arithmetic; non-trivial = finite and non-zero; distinct by value bits";
  }

  @Override
  public void run() throws Throwable {
    full = FastPrintf.compile("%.25e");
    cases("exponents", 2047L * 160, (r, i) -> {
      long e = i % 2047;
      long m = r.chance(1, 2) ? Gen.significand(r) : r.next() >>> 12;
      check("exponents", i, Double.longBitsToDouble(e << 52 | m));
    });
    cases("powers", 640 * 40, (r, i) -> {
      int x = (int) (i % 640) - 325;
      double d = Double.parseDouble(r.range(1, 9) + "e" + x);
      int k = r.range(-4, 4);
      for (; k > 0; k--) d = Math.nextUp(d);
      for (; k < 0; k++) d = Math.nextDown(d);
      check("powers", i, d);
    });
    cases("smallest", 4000, (r, i) -> check("smallest", i, Double.longBitsToDouble(i + 1)));
    cases("closest", 2047L * 48, this::closest);
    cases("random", 700_000, (r, i) -> check("random", i, Math.abs(gen.float64(r))));
    cases("integers", 150_000, (r, i) -> {
      double d = (double) Math.abs(gen.int64(r));
      if (r.chance(1, 3)) d = (1L << 53) - 64 + r.below(128);
      check("integers", i, d);
    });
    cases("monotone", 40_000, (r, i) -> monotone(r, i));
  }

  /**
   * Doubles that leave a conversion the least room: c*2^b where an end of the rounding interval or
   * the value itself comes extremely close to a multiple, or half a multiple, of 10^j. Found by
   * solving l <= x*num mod den <= h for the smallest x from a random start.
   */
  private void closest(Rng r, long i) {
    int be = (int) (i % 2047);
    int b = be == 0 ? -1074 : be - 1075;
    // x*2^(b-2) with x = 4c-2, 4c+2 (ends), 4c-1 (lower end at a power of two), 4c (value): use y = x/2
    int j = (int) Math.floor((b + (be == 0 ? 1 + r.below(52) : 53)) * Math.log10(2)) - 16 + r.range(-1, 2);
    BigInteger num = BigInteger.ONE, den = BigInteger.ONE;
    if (b - 1 >= 0) num = num.shiftLeft(b - 1);
    else den = den.shiftLeft(1 - b);
    if (j >= 0) den = den.multiply(BigInteger.TEN.pow(j));
    else num = num.multiply(BigInteger.TEN.pow(-j));
    BigInteger g = num.gcd(den);
    num = num.divide(g);
    den = den.divide(g);
    if (den.bitLength() < 3) return;
    BigInteger a = num.mod(den);
    BigInteger mid = r.bool() ? BigInteger.ZERO : den.shiftRight(1);
    long lo = be == 0 ? 2 : 1L << 53, hi = be == 0 ? 1L << 53 : 1L << 54;
    int bits = be == 0 ? 53 : 54;
    int found = 0;
    for (int room = bits + 3; room > bits - 8 && found == 0; room -= 2) {
      BigInteger w = den.shiftRight(room);
      BigInteger l, h;
      int side = r.below(3);
      l = side == 0 ? mid : mid.subtract(w);
      h = side == 1 ? mid : mid.add(w);
      long from = lo + (r.chance(1, 3) ? 0 : (r.next() >>> 1) % (hi - lo));
      for (int k = 0; k < 3; k++) {
        BigInteger x = first(a, den, l, h, BigInteger.valueOf(from));
        if (x == null || x.bitLength() > 62 || x.longValue() >= hi) break;
        long y = x.longValue();
        found++;
        for (long c : (y & 1) == 0 ? new long[] {y >> 1} : new long[] {y >> 1, (y >> 1) + 1}) {
          if (be > 0 && (c < 1L << 52 || c >= 1L << 53) || be == 0 && c >= 1L << 52) continue;
          rep.count("values with the least room");
          check("closest", i, Double.longBitsToDouble(be == 0 ? c : (long) be << 52 | c & (1L << 52) - 1));
        }
        from = y + 1;
      }
    }
  }

  /** Smallest x >= from with a*x mod m in the cyclic range l..h, or null. */
  static BigInteger first(BigInteger a, BigInteger m, BigInteger l, BigInteger h, BigInteger from) {
    BigInteger s = a.multiply(from);
    BigInteger l1 = l.subtract(s).mod(m), h1 = h.subtract(s).mod(m);
    if (h.subtract(l).compareTo(m) >= 0 || l1.signum() == 0 || l1.compareTo(h1) > 0) return from;
    BigInteger z = first(a, m, l1, h1);
    return z == null ? null : z.add(from);
  }

  private static BigInteger first(BigInteger a, BigInteger m, BigInteger l, BigInteger h) {
    if (l.signum() == 0) return BigInteger.ZERO;
    if (a.signum() == 0) return null;
    BigInteger c = l.add(a).subtract(BigInteger.ONE).divide(a);
    if (a.multiply(c).compareTo(h) <= 0) return c;
    BigInteger y = first(m.mod(a), a, h.negate().mod(a), l.negate().mod(a));
    if (y == null) return null;
    return l.add(m.multiply(y)).add(a).subtract(BigInteger.ONE).divide(a);
  }

  private void check(String phase, long i, double d) {
    d = Math.abs(d);
    if (Double.isNaN(d) || Double.isInfinite(d) || d == 0) return;
    final double dd = d;
    Lib.Out o = Lib.call(() -> full.format(Args.create().putDouble(dd)));
    String problem = o.error != null ? "unexpected exception" : judge(d, o.text);
    rep.distinct(Double.doubleToRawLongBits(d));
    rep.judged();
    if (rep.wantsSamples()) rep.sample("%.25e of " + Arg.describe(d));
    if (problem != null) fail(phase, i, problem, "%.25e of " + Arg.describe(d) + "\nactual: " + o);
  }

  /** Exact judgement of a full-precision scientific text. */
  static String judge(double d, String t) {
    if (!t.matches("[1-9]\\.[0-9]{25}e[+-][0-9]{2,3}")) return "malformed";
    int ei = t.indexOf('e');
    String ds = t.charAt(0) + t.substring(2, ei);
    int n = ds.length();
    while (n > 1 && ds.charAt(n - 1) == '0') n--;
    BigInteger f = new BigInteger(ds.substring(0, n));
    int q = Integer.parseInt(t.substring(ei + 1)) - (n - 1); // value = f * 10^q
    // exact binary value c*2^b and the rounding interval of d
    long bits = Double.doubleToRawLongBits(d);
    int be = (int) (bits >>> 52);
    long m = bits & ((1L << 52) - 1);
    long c = be == 0 ? m : m | 1L << 52;
    int b = be == 0 ? -1074 : be - 1075;
    // scale everything by 4 so that the interval ends are integers: value 4c, ends 4c-2 (or 4c-1), 4c+2
    BigInteger c4 = BigInteger.valueOf(c).shiftLeft(2);
    boolean edge = m == 0 && be > 1;
    BigInteger lo = c4.subtract(BigInteger.valueOf(edge ? 1 : 2));
    BigInteger hi = c4.add(BigInteger.valueOf(2));
    boolean even = (c & 1) == 0;
    Scaled s = new Scaled(b - 2, q);
    BigInteger fx = s.dec(f);
    BigInteger lx = s.bin(lo), hx = s.bin(hi), vx = s.bin(c4);
    if (!inside(fx, lx, hx, even)) return "does not identify the value";
    if (Double.doubleToRawLongBits(Double.parseDouble(t)) != bits) return "does not read back";
    // No shorter decimal: candidates with n-1 digits around the value must lie outside.
    // Decimals may always have two digits, as in the platform's specification.
    if (n > 2) {
      BigInteger unit = BigInteger.TEN; // step of 10^(q+1)
      Scaled s2 = s;
      BigInteger step = s2.dec(unit);
      BigInteger[] k = vx.divideAndRemainder(step);
      BigInteger below = k[0].multiply(step);
      BigInteger above = below.add(step);
      if (below.signum() > 0 && inside(below, lx, hx, even) || inside(above, lx, hx, even)) {
        return "a shorter decimal identifies the value";
      }
    }
    // Closest among those of its length (for one digit: among two-digit ones).
    BigInteger step = n == 1 ? s.tenth() : s.dec(BigInteger.ONE);
    {
      BigInteger err = fx.subtract(vx).abs();
      BigInteger half = n == 1 && f.equals(BigInteger.ONE) ? s.hundredth() : step;
      if (err.shiftLeft(1).compareTo(half) > 0) {
        // only wrong if the closer neighbour is also inside the interval
        BigInteger nb = fx.compareTo(vx) > 0 ? fx.subtract(step) : fx.add(step);
        // below a power of ten two digits come closer together
        if (n == 1 && f.equals(BigInteger.ONE) && fx.compareTo(vx) > 0) nb = fx.subtract(s.hundredth());
        if (inside(nb, lx, hx, even) && nb.subtract(vx).abs().compareTo(err) < 0) {
          return "a decimal of the same length is closer";
        }
      }
    }
    return null;
  }

  private static boolean inside(BigInteger x, BigInteger lo, BigInteger hi, boolean closed) {
    int a = x.compareTo(lo), b = x.compareTo(hi);
    return closed ? a >= 0 && b <= 0 : a > 0 && b < 0;
  }

  /** Brings f*10^q and k*2^b to a common integer scale, with two spare decimal digits. */
  private static final class Scaled {
    final BigInteger dm, bm;

    Scaled(int b, int q) {
      BigInteger d = BigInteger.ONE, x = BigInteger.valueOf(100);
      if (q >= 0) d = BigInteger.TEN.pow(q);
      else x = x.multiply(BigInteger.TEN.pow(-q));
      d = d.multiply(BigInteger.valueOf(100));
      if (b >= 0) x = x.shiftLeft(b);
      else d = d.shiftLeft(-b);
      dm = d;
      bm = x;
    }

    BigInteger dec(BigInteger f) {
      return f.multiply(dm);
    }

    BigInteger tenth() {
      return dm.divide(BigInteger.TEN);
    }

    BigInteger hundredth() {
      return dm.divide(BigInteger.valueOf(100));
    }

    BigInteger bin(BigInteger k) {
      return k.multiply(bm);
    }
  }

  /** A larger double never prints as a smaller decimal, at any precision. */
  private void monotone(Rng r, long i) {
    double[] a = new double[6];
    a[0] = Math.abs(gen.float64(r));
    if (Double.isNaN(a[0]) || Double.isInfinite(a[0]) || a[0] > 1e300) a[0] = r.below(1000) / 8.0;
    for (int k = 1; k < a.length; k++) {
      a[k] = r.bool() ? Math.nextUp(a[k - 1]) : a[k - 1] * (1 + r.below(1000) / 1e9);
    }
    Arrays.sort(a);
    int p = r.below(20);
    FastPrintf fp = FastPrintf.compile("%." + p + "e");
    String last = null;
    for (double d : a) {
      Lib.Out o = Lib.call(() -> fp.format(Args.create().putDouble(d)));
      if (o.error != null) {
        fail("monotone", i, "unexpected exception", Arg.describe(d) + "\n" + o);
        return;
      }
      if (last != null
          && new java.math.BigDecimal(o.text).compareTo(new java.math.BigDecimal(last)) < 0) {
        fail("monotone", i, "not monotone", "%." + p + "e of " + Arrays.toString(a) + ": " + last + " then " + o.text);
        return;
      }
      last = o.text;
      rep.count("ordered outputs");
      rep.judged();
    }
  }
}
