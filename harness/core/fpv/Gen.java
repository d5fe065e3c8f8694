package fpv;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.nio.CharBuffer;
import java.time.Instant;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.time.LocalTime;
import java.time.OffsetDateTime;
import java.time.ZoneId;
import java.time.ZoneOffset;
import java.time.ZonedDateTime;
import java.util.Date;
import java.util.GregorianCalendar;
import java.util.TimeZone;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.atomic.AtomicLong;

/** Boundary-heavy generators for directives and arguments. */
public final class Gen {
  public static final String INT_CONV = "diuoxX";
  public static final String FLOAT_CONV = "fFeEgGaA";
  public static final String ALL_VALUE_CONV = "diuoxXfFeEgGaAcsS";

  private static final int[] LENGTHS = {
    0, 1, 2, 3, 7, 8, 9, 10, 11, 12, 14, 15, 16, 17, 18, 24, 31, 32, 33, 47, 48, 49, 63, 64, 65, 99,
    100, 101, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 511, 512, 513, 999, 1000, 1001, 1023,
    1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535,
    65536
  };

  public final Dict dict;

  public Gen(Dict dict) {
    this.dict = dict;
  }

  // ---------------------------------------------------------------- numbers

  public long int64(Rng r) {
    switch (r.below(12)) {
      case 0:
      case 1:
        return r.range(-20, 20);
      case 2:
        return r.range(-300, 300);
      case 3:
      case 4:
        {
          long p = 1L << r.below(64);
          return (r.bool() ? p : -p) + r.range(-2, 2);
        }
      case 5:
      case 6:
        {
          long p = 1;
          for (int i = r.below(19); i > 0; i--) p *= 10;
          p *= r.range(1, 9);
          return (r.bool() ? p : -p) + r.range(-2, 2);
        }
      case 7:
        return dict.pickLong(r);
      case 8:
        {
          String d = String.valueOf((char) ('1' + r.below(9)));
          StringBuilder sb = new StringBuilder();
          for (int i = r.range(1, 18); i > 0; i--) sb.append(d);
          long v = Long.parseLong(sb.toString());
          return r.bool() ? v : -v;
        }
      case 9:
        return r.next();
      case 10:
        switch (r.below(10)) {
          case 0:
            return Long.MIN_VALUE + r.below(3);
          case 1:
            return Long.MAX_VALUE - r.below(3);
          case 2:
            return Integer.MIN_VALUE + (long) r.range(-2, 2);
          case 3:
            return Integer.MAX_VALUE + (long) r.range(-2, 2);
          case 4:
            return 0xFFFFFFFFL + r.range(-2, 2);
          case 5:
            return Short.MIN_VALUE + (long) r.range(-2, 2);
          case 6:
            return Byte.MIN_VALUE + (long) r.range(-2, 2);
          case 7:
            return 0xAAAAAAAAAAAAAAAAL >>> r.below(63);
          default:
            return 0;
        }
      default:
        {
          long v = r.bits(r.range(1, 63));
          return r.bool() ? v : -v;
        }
    }
  }

  public BigInteger bigInteger(Rng r) {
    switch (r.below(8)) {
      case 0:
      case 1:
        return BigInteger.valueOf(int64(r));
      case 2:
        {
          BigInteger p = BigInteger.ONE.shiftLeft(r.below(300)).add(BigInteger.valueOf(r.range(-2, 2)));
          return r.bool() ? p : p.negate();
        }
      case 3:
        {
          BigInteger p = BigInteger.TEN.pow(r.below(90)).add(BigInteger.valueOf(r.range(-2, 2)));
          return r.bool() ? p : p.negate();
        }
      case 4:
        return BigInteger.ZERO;
      default:
        {
          int n = r.chance(1, 30) ? r.range(200, 2000) : r.range(1, 60);
          BigInteger b = new BigInteger(digits(r, n));
          return r.bool() ? b : b.negate();
        }
    }
  }

  /** A number of digits from a few hundred to beyond the largest width, with the usual borders. */
  public static int manyDigits(Rng r) {
    switch (r.below(4)) {
      case 0:
        return Math.max(200, (1 << r.range(8, 16)) + r.range(-2, 2));
      case 1:
        return new int[] {255, 999, 1000, 4095, 9999, 10000, 32767, 32768, 65535, 65536, 65537, 70000}[r.below(12)];
      default:
        return r.chance(1, 4) ? r.range(200, 70000) : r.range(200, 9000);
    }
  }

  public static BigInteger hugeInteger(Rng r) {
    BigInteger b = new BigInteger((char) ('1' + r.below(9)) + digits(r, manyDigits(r) - 1));
    return r.bool() ? b : b.negate();
  }

  /** Many digits; the point inside them, just outside or (small sizes) far away. */
  public static BigDecimal hugeDecimal(Rng r) {
    BigInteger b = hugeInteger(r);
    int n = b.abs().toString().length();
    int scale;
    switch (r.below(5)) {
      case 0:
        scale = n - r.below(40);
        break;
      case 1:
        scale = r.below(40);
        break;
      case 2:
        scale = n + r.below(300);
        break;
      case 3:
        scale = -r.below(300);
        break;
      default:
        scale = r.below(n);
    }
    return new BigDecimal(b, scale);
  }

  /** n decimal digits with runs of 0, 9 and 4/5 so that carries and ties occur. */
  public static String digits(Rng r, int n) {
    StringBuilder sb = new StringBuilder(n);
    int mode = r.below(6);
    while (sb.length() < n) {
      int k = mode == 0 ? 1 : r.range(1, 8);
      char c;
      switch (r.below(mode == 0 ? 1 : 6)) {
        case 1:
          c = '9';
          break;
        case 2:
          c = '0';
          break;
        case 3:
          c = r.bool() ? '4' : '5';
          k = 1;
          break;
        default:
          c = (char) ('0' + r.below(10));
          if (mode != 0 && r.bool()) k = 1;
      }
      for (int i = 0; i < k && sb.length() < n; i++) sb.append(c);
    }
    return sb.toString();
  }

  public Object integer(Rng r) {
    switch (r.below(20)) {
      case 0:
      case 1:
        return (byte) (r.bool() ? r.range(-128, 127) : int64(r));
      case 2:
      case 3:
        return (short) (r.bool() ? r.range(-32768, 32767) : int64(r));
      case 4:
        return (char) (r.bool() ? r.range(0, 300) : int64(r));
      case 5:
        return r.bool();
      case 6:
      case 7:
      case 8:
        return bigInteger(r);
      case 9:
      case 10:
      case 11:
      case 12:
      case 13:
        return int64(r);
      default:
        return (int) int64(r);
    }
  }

  public double float64(Rng r) {
    double d = float64Magnitude(r);
    return r.chance(1, 3) ? -d : d;
  }

  private double float64Magnitude(Rng r) {
    switch (r.below(20)) {
      case 0:
        return Double.longBitsToDouble(r.next());
      case 1:
      case 2:
        { // every exponent, structured significand
          long e = r.below(2047);
          return Double.longBitsToDouble(e << 52 | significand(r));
        }
      case 3:
        return Double.longBitsToDouble(significand(r)); // subnormal
      case 4:
        switch (r.below(10)) {
          case 0:
            return Double.NaN;
          case 1:
            return Double.POSITIVE_INFINITY;
          case 2:
            return Double.MIN_VALUE;
          case 3:
            return Double.MAX_VALUE;
          case 4:
            return Double.MIN_NORMAL;
          case 5:
            return -0.0;
          case 6:
            return Math.nextDown(Double.MIN_NORMAL);
          default:
            return 0.0;
        }
      case 5:
      case 6:
      case 7:
      case 8:
        { // decimal with few digits
          int n = r.range(1, 17);
          int e = r.chance(1, 4) ? r.range(-330, 308) : r.range(-12, 12);
          return Double.parseDouble(digits(r, n) + "e" + (e - r.below(n + 1)));
        }
      case 9:
      case 10:
        { // ties at a decimal position: x.yyy5
          int n = r.range(0, 8);
          return Double.parseDouble(r.below(100000) + "." + digits(r, n) + "5");
        }
      case 11:
        return r.below(1 << 20) / (double) (1L << r.range(0, 20)); // exact binary ties
      case 12:
        { // carry chains 9.99..x
          String t = Ref.rep('9', r.range(1, 16)) + r.below(10);
          int k = r.below(t.length() + 1);
          return Double.parseDouble("0" + t.substring(0, k) + "." + t.substring(k) + "e" + r.range(-6, 6));
        }
      case 13:
        { // neighbours of powers of ten
          double d = Double.parseDouble("1e" + (r.chance(1, 3) ? r.range(-323, 308) : r.range(-7, 23)));
          for (int i = r.below(4); i > 0; i--) d = r.bool() ? Math.nextUp(d) : Math.nextDown(d);
          return d * (r.chance(1, 4) ? r.range(1, 9) : 1);
        }
      case 14:
        return (double) int64(r);
      case 15:
        return dict.pickDouble(r);
      case 16:
        return (double) float32(r);
      case 17:
        return r.range(0, 1000) / 10.0;
      case 18:
        return r.range(0, 100000) / 1000.0;
      default:
        return Double.longBitsToDouble((1023L + r.range(-80, 80)) << 52 | (r.next() >>> 12));
    }
  }

  public static long significand(Rng r) {
    long m = (1L << 52) - 1;
    switch (r.below(6)) {
      case 0:
        return 0;
      case 1:
        return r.below(16);
      case 2:
        return m - r.below(16);
      case 3:
        return (1L << r.below(52)) + r.range(-1, 1) & m;
      case 4:
        { // ties and near ties for hex rounding
          int drop = 4 * r.range(1, 12);
          long hi = r.next() >>> 12 & ~((1L << drop) - 1);
          return (hi | 1L << (drop - 1)) + r.range(-1, 1) & m;
        }
      default:
        return r.next() >>> 12;
    }
  }

  public float float32(Rng r) {
    switch (r.below(6)) {
      case 0:
      case 1:
        return Float.intBitsToFloat((int) r.next());
      case 2:
        return r.range(-1000, 1000) / 10f;
      case 3:
        return Float.parseFloat((r.bool() ? "-" : "") + digits(r, r.range(1, 9)) + "e" + r.range(-12, 6));
      case 4:
        switch (r.below(6)) {
          case 0:
            return Float.NaN;
          case 1:
            return Float.NEGATIVE_INFINITY;
          case 2:
            return Float.MAX_VALUE;
          case 3:
            return Float.MIN_VALUE;
          case 4:
            return -0f;
          default:
            return Float.POSITIVE_INFINITY;
        }
      default:
        return (float) int64(r);
    }
  }

  /** scaleRange bounds |scale|. */
  public BigDecimal bigDecimal(Rng r, int scaleRange) {
    int n;
    switch (r.below(12)) {
      case 0:
        return new BigDecimal(BigInteger.ZERO, r.range(-12, 12));
      case 1:
        n = r.range(40, 140);
        break;
      case 2:
        n = r.chance(1, 20) ? r.range(1000, 4000) : r.range(1, 40);
        break;
      case 3:
        { // around powers of ten and the %g switch
          BigDecimal p = BigDecimal.ONE.scaleByPowerOfTen(r.range(-8, 12));
          BigDecimal q = BigDecimal.ONE.scaleByPowerOfTen(r.range(-20, 2)).multiply(p);
          BigDecimal v = r.bool() ? p.subtract(q) : r.bool() ? p.add(q) : p;
          return r.bool() ? v : v.negate();
        }
      case 4:
        return BigDecimal.valueOf(int64(r), r.range(-25, 25));
      case 5:
        {
          double d = float64(r);
          if (Double.isNaN(d) || Double.isInfinite(d)) return BigDecimal.ONE;
          return r.bool() ? new BigDecimal(d) : BigDecimal.valueOf(d);
        }
      case 6:
        { // trailing zeros in the unscaled value
          BigInteger u = new BigInteger(digits(r, r.range(1, 12)) + Ref.rep('0', r.range(1, 12)));
          return new BigDecimal(r.bool() ? u : u.negate(), r.range(-10, 30));
        }
      case 7:
        {
          long v = dict.pickLong(r);
          return BigDecimal.valueOf(v, r.range(-3, 12));
        }
      default:
        n = r.range(1, 25);
    }
    int scale;
    switch (r.below(6)) {
      case 0:
        scale = 0;
        break;
      case 1:
        scale = r.range(-Math.min(30, scaleRange), 0);
        break;
      case 2:
        scale = r.range(-scaleRange, scaleRange);
        break;
      case 3:
        scale = n + r.range(-2, 8);
        break;
      default:
        scale = r.range(0, n + 2);
    }
    BigInteger u = new BigInteger(digits(r, n));
    return new BigDecimal(r.bool() ? u : u.negate(), scale);
  }

  public Object floating(Rng r) {
    switch (r.below(10)) {
      case 0:
      case 1:
        return float32(r);
      default:
        return float64(r);
    }
  }

  // ------------------------------------------------------------------- text

  private static final String ODD =
      "ıİßéǆµſKａﬁŉẞ\u0000\n\t\r\u007f\u0080ÿĀ😀𐀀￿￾%{}'`@[z{Aa";

  public int length(Rng r, int max) {
    int n;
    switch (r.below(8)) {
      case 0:
        n = r.pick(LENGTHS);
        break;
      case 1:
        n = (int) Math.min(70000, Math.abs(dict.pickLong(r) % 100000));
        break;
      case 2:
        n = r.range(14, 18);
        break;
      case 3:
        n = r.below(130);
        break;
      default:
        n = r.below(24);
    }
    // Long texts are costly; keep most of them out unless asked for.
    if (n > 600 && !r.chance(1, 8)) n %= 600;
    return Math.min(n, max);
  }

  public String string(Rng r, int max) {
    if (r.chance(1, 12)) {
      String s = dict.pickString(r);
      if (r.chance(1, 3)) s = s + dict.pickString(r);
      return s.length() <= max ? s : s.substring(0, max);
    }
    return string(r, length(r, max), r.below(7));
  }

  public static String string(Rng r, int n, int alphabet) {
    char[] a = new char[n];
    for (int i = 0; i < n; i++) a[i] = ch(r, alphabet);
    return new String(a);
  }

  public static char ch(Rng r, int alphabet) {
    switch (alphabet) {
      case 0:
        return (char) ('a' + r.below(26));
      case 1:
        return (char) (32 + r.below(95));
      case 2:
        return (char) r.below(128);
      case 3:
        return (char) r.below(256);
      case 4:
        return (char) r.next();
      case 5:
        return r.pick(ODD);
      default:
        {
          int k = r.below(4);
          return k == 0
              ? (char) ('A' + r.below(26))
              : k == 1 ? (char) ('0' + r.below(10)) : (char) ('a' + r.below(26));
        }
    }
  }

  /** A character sequence that is not a String; honours the CharSequence contract. */
  public static final class View implements CharSequence {
    private final String s;
    private final int from, to;

    public View(String s, int from, int to) {
      this.s = s;
      this.from = from;
      this.to = to;
    }

    @Override
    public int length() {
      return to - from;
    }

    @Override
    public char charAt(int i) {
      if (i < 0 || i >= to - from) throw new IndexOutOfBoundsException();
      return s.charAt(from + i);
    }

    @Override
    public CharSequence subSequence(int a, int b) {
      if (a < 0 || b < a || b > to - from) throw new IndexOutOfBoundsException();
      return new View(s, from + a, from + b);
    }

    @Override
    public String toString() {
      return s.substring(from, to);
    }
  }

  public CharSequence sequence(Rng r, int max) {
    return sequence(r, string(r, max));
  }

  /** Makes the library's own text values, if they can be made. */
  static java.util.function.BiFunction<Rng, String, CharSequence> ropes;
  /** Deferred texts of the library that do something while they are made, or null. */
  static java.util.function.BiFunction<String, Runnable, CharSequence> lazies;

  @SuppressWarnings("unchecked")
  /** Objects of different classes. */
  Object object(Rng r) {
    switch (r.below(8)) {
      case 0:
        return new int[] {r.below(9)};
      case 1:
        return new StringBuilder("x");
      case 2:
        return new Date(r.below(1000));
      case 3:
        return new Object[] {"x"};
      case 4:
        return new BigInteger("12345678901234567890");
      default:
        return new Named("x");
    }
  }

  static boolean loadRopes() {
    try {
      ropes = (java.util.function.BiFunction<Rng, String, CharSequence>) Class.forName("fpv.Ropes").getDeclaredConstructor().newInstance();
      ropes.apply(new Rng(1), "abc");
      lazies = (java.util.function.BiFunction<String, Runnable, CharSequence>) Class.forName("fpv.Ropes$Lazy").getDeclaredConstructor().newInstance();
    } catch (ReflectiveOperationException | LinkageError | RuntimeException e) {
      ropes = null;
      lazies = null;
    }
    return ropes != null;
  }

  /** Makes texts that implement the library's interface themselves, or null. */
  @SuppressWarnings("unchecked")
  static java.util.function.Function<String, CharSequence> foreign() {
    try {
      return (java.util.function.Function<String, CharSequence>) Class.forName("fpv.Foreign$Maker").getDeclaredConstructor().newInstance();
    } catch (ReflectiveOperationException | LinkageError e) {
      return null;
    }
  }

  public static CharSequence sequence(Rng r, String s) {
    switch (r.below(11)) {
      case 0:
        return new StringBuilder(s);
      case 1:
        return new StringBuffer(s);
      case 2:
        return CharBuffer.wrap(s);
      case 3:
        {
          char[] a = ("<<" + s + ">").toCharArray();
          return CharBuffer.wrap(a, 2, s.length()).slice();
        }
      case 4:
        return new View("ab" + s + "cde", 2, 2 + s.length());
      case 5:
        {
          StringBuilder sb = new StringBuilder(s.length() * 2 + 50);
          return sb.append(s);
        }
      case 6:
      case 7:
        return ropes == null ? s : ropes.apply(r, s);
      default:
        return s;
    }
  }

  /** An object whose text is fixed. */
  public static final class Named {
    final String s;

    public Named(String s) {
      this.s = s;
    }

    @Override
    public String toString() {
      return s;
    }
  }

  public Object anyText(Rng r, int max) {
    switch (r.below(16)) {
      case 0:
        return null;
      case 1:
        return integer(r);
      case 2:
        return floating(r);
      case 3:
        return bigDecimal(r, 40);
      case 4:
        return array(r);
      case 5:
        return new Named(string(r, max));
      case 6:
        return ch(r, r.below(7));
      case 7:
        return r.bool();
      case 8:
        return temporal(r);
      default:
        return sequence(r, max);
    }
  }

  public Object array(Rng r) {
    int n = r.chance(1, 8) ? length(r, 300) : r.below(6);
    switch (r.below(11)) {
      case 10:
        {
          // arrays of arrays, of objects of one class, of anything that has a text
          if (r.bool()) return new int[n % 5][2];
          if (r.bool()) return new char[n % 5][1];
          if (r.bool()) return new Object[][] {{"a", 1}, null, new Integer[n % 7]};
          if (r.bool()) return r.bool() ? new Long[][][] {} : new byte[n % 5][];
          Object[] a = r.bool() ? new CharSequence[n] : new Comparable[n];
          for (int i = 0; i < n; i++) a[i] = string(r, 20);
          return a;
        }
      case 0:
        {
          byte[] a = new byte[n];
          for (int i = 0; i < n; i++) a[i] = (byte) r.next();
          return a;
        }
      case 1:
        {
          char[] a = new char[n];
          int al = r.below(7);
          for (int i = 0; i < n; i++) a[i] = ch(r, al);
          return a;
        }
      case 2:
        {
          int[] a = new int[n];
          for (int i = 0; i < n; i++) a[i] = (int) int64(r);
          return a;
        }
      case 3:
        {
          long[] a = new long[n];
          for (int i = 0; i < n; i++) a[i] = int64(r);
          return a;
        }
      case 4:
        {
          short[] a = new short[n];
          for (int i = 0; i < n; i++) a[i] = (short) int64(r);
          return a;
        }
      case 5:
        {
          boolean[] a = new boolean[n];
          for (int i = 0; i < n; i++) a[i] = r.bool();
          return a;
        }
      case 6:
        {
          double[] a = new double[n];
          for (int i = 0; i < n; i++) a[i] = float64(r);
          return a;
        }
      case 7:
        {
          float[] a = new float[n];
          for (int i = 0; i < n; i++) a[i] = float32(r);
          return a;
        }
      case 8:
        {
          String[] a = new String[n];
          for (int i = 0; i < n; i++) a[i] = r.chance(1, 6) ? null : string(r, 30);
          return a;
        }
      default:
        {
          Object[] a = new Object[n];
          for (int i = 0; i < n; i++) {
            switch (r.below(6)) {
              case 0:
                a[i] = null;
                break;
              case 5:
                a[i] = r.bool() ? new int[] {1, 2} : r.bool() ? (Object) new String[] {"a"} : new byte[] {7};
                break;
              case 1:
                a[i] = int64(r);
                break;
              case 2:
                a[i] = new Named(string(r, 20));
                break;
              case 3:
                a[i] = new StringBuilder(string(r, 20));
                break;
              default:
                a[i] = string(r, 20);
            }
          }
          return a;
        }
    }
  }

  // --------------------------------------------------------------- temporal

  private static final String[] ZONES = {
    "UTC", "America/New_York", "Asia/Kolkata", "Pacific/Apia", "Europe/London", "Asia/Kathmandu",
    "+05:30", "-11:00", "Z", "+18:00", "-00:44:30", "Africa/Monrovia"
  };

  public static ZoneId zone(Rng r) {
    return ZoneId.of(r.pick(ZONES));
  }

  public long epochMillis(Rng r) {
    switch (r.below(8)) {
      case 0:
        return int64(r) % 10_000_000_000_000L;
      case 1:
        return r.range(-5, 5);
      case 2:
        return 4294967295L + r.range(-3, 3);
      case 3:
        return 4294967295000L + r.range(-2000, 2000);
      case 4:
        return -r.bits(44);
      default:
        return r.bits(41) + (r.bool() ? 0 : -r.bits(3));
    }
  }

  public LocalDateTime localDateTime(Rng r) {
    int nano;
    switch (r.below(5)) {
      case 0:
        nano = 0;
        break;
      case 1:
        nano = r.below(1000) * 1000000;
        break;
      case 2:
        nano = r.below(1000000) * 1000;
        break;
      default:
        nano = r.below(1000000000);
    }
    int year;
    switch (r.below(8)) {
      case 0:
        year = r.range(-10, 10);
        break;
      case 1:
        year = r.range(9990, 10010);
        break;
      case 2:
        year = r.range(-12000, 12000);
        break;
      default:
        year = r.range(1900, 2100);
    }
    int sec = r.chance(1, 4) ? 0 : r.below(60);
    return LocalDateTime.of(
        LocalDate.ofYearDay(year, r.range(1, 365)), LocalTime.of(r.below(24), r.below(60), sec, nano));
  }

  /** Temporal values with an ISO default form, plus dates and calendars. */
  public Object temporal(Rng r) {
    switch (r.below(9)) {
      case 0:
        return Instant.ofEpochMilli(epochMillis(r)).plusNanos(r.below(1000000));
      case 1:
        return localDateTime(r).toLocalDate();
      case 2:
        return localDateTime(r);
      case 3:
        return OffsetDateTime.of(
            localDateTime(r), ZoneOffset.ofTotalSeconds(r.chance(1, 4) ? r.range(-64800, 64800) : r.range(-72, 72) * 900));
      case 4:
      case 5:
        return ZonedDateTime.of(localDateTime(r), zone(r));
      case 6:
        return new Date(epochMillis(r));
      case 7:
        {
          GregorianCalendar c =
              new GregorianCalendar(TimeZone.getTimeZone(zone(r)));
          c.setTimeInMillis(epochMillis(r));
          return c;
        }
      default:
        return r.bool() ? Instant.ofEpochSecond(epochMillis(r)) : LocalDate.ofEpochDay(r.range(-800000, 800000));
    }
  }

  // -------------------------------------------------------------- directives

  public int width(Rng r) {
    switch (r.below(16)) {
      case 0:
      case 1:
      case 2:
      case 3:
      case 4:
        return Spec.NONE;
      case 5:
        return big(r, r.pick(LENGTHS));
      case 6:
        return big(r, (int) Math.min(Ref.LIMIT, Math.abs(dict.pickLong(r) % 100000)));
      case 7:
        return r.range(25, 140);
      case 8:
        return r.range(14, 20);
      default:
        return r.range(1, 24);
    }
  }

  private static int big(Rng r, int n) {
    return n > 2000 && !r.chance(1, 12) ? n % 2000 : n;
  }

  public int prec(Rng r) {
    switch (r.below(16)) {
      case 0:
      case 1:
      case 2:
      case 3:
      case 4:
        return Spec.NONE;
      case 5:
        return big(r, r.pick(LENGTHS));
      case 6:
        return big(r, (int) Math.min(Ref.LIMIT, Math.abs(dict.pickLong(r) % 100000)));
      case 7:
        return r.range(20, 130);
      case 8:
      case 9:
        return 0;
      default:
        return r.range(0, 20);
    }
  }

  public Spec spec(Rng r, char conv) {
    Spec s = new Spec(conv);
    int f = r.bool() ? 0 : r.below(32);
    if (r.chance(1, 4)) f = 1 << r.below(5);
    s.minus = (f & 1) != 0;
    s.plus = (f & 2) != 0;
    s.space = (f & 4) != 0;
    s.alt = (f & 8) != 0;
    s.zero = (f & 16) != 0;
    s.width = width(r);
    if (s.width == 0) s.width = Spec.NONE;
    s.prec = prec(r);
    s.bareDot = r.bool();
    s.order = (int) r.next();
    return s;
  }

  /** Moves the width close to the natural length of the output, so padding of 0..2 is common. */
  public void aimWidth(Rng r, Spec s, Object v) {
    if (s.width < 0 || !r.chance(1, 3)) return;
    try {
      Spec t = s.clone();
      t.width = Spec.NONE;
      int n = Ref.render(t, v).length();
      int w = n + r.range(-1, 3);
      if (w >= 1 && w <= Ref.LIMIT) s.width = w;
    } catch (RuntimeException e) {
      // keep the width
    }
  }

  /** A number-like object that is none of the standard number classes. */
  public static final class OddNumber extends Number {
    final long l;

    public OddNumber(long l) {
      this.l = l;
    }

    @Override
    public int intValue() {
      return (int) l;
    }

    @Override
    public long longValue() {
      return l;
    }

    @Override
    public float floatValue() {
      return l;
    }

    @Override
    public double doubleValue() {
      return l;
    }

    @Override
    public String toString() {
      return "odd" + l;
    }

    @Override
    public int hashCode() {
      return (int) Rng.mix(l);
    }

    @Override
    public boolean equals(Object o) {
      return o instanceof OddNumber && ((OddNumber) o).l == l;
    }
  }

  public Object number(Rng r) {
    switch (r.below(8)) {
      case 0:
        return new AtomicInteger((int) int64(r));
      case 1:
        return new AtomicLong(int64(r));
      case 2:
        return new OddNumber(int64(r));
      case 3:
        return bigDecimal(r, 40);
      case 4:
      case 5:
        return floating(r);
      default:
        return integer(r);
    }
  }

  /** An argument of another type that the conversion takes as well. */
  private Object otherFor(Rng r, char c) {
    switch (c) {
      case 't':
        {
          long n = Math.abs(r.bool() ? r.range(0, Integer.MAX_VALUE) : epochMillis(r));
          switch (r.below(5)) {
            case 0:
              return (int) n;
            case 1:
              return new AtomicLong(n);
            case 2:
              return BigInteger.valueOf(n);
            default:
              return n;
          }
        }
      case 'c':
        {
          int n = r.range(32, 126);
          Object[] forms = {(byte) n, (short) n, (long) n, new AtomicInteger(n), BigInteger.valueOf(n), new StringBuilder("q" + n), true};
          return r.pick(forms);
        }
      case 's':
      case 'n':
      case 'p':
        return array(r);
      default:
        {
          long n = int64(r) >> r.below(64);
          Object[] forms = {
            r.bool(), ch(r, r.below(7)), Long.toString(n), new StringBuilder().append(n), new Date(epochMillis(r)),
            Instant.ofEpochMilli(epochMillis(r)), float64(r), float32(r), n, (int) n, (short) n, (byte) n, number(r),
            ZonedDateTime.of(localDateTime(r), zone(r))
          };
          return r.pick(forms);
        }
    }
  }

  /** An argument that suits the conversion (it may still be refused, e.g. unsigned negatives). */
  public Object valueFor(Rng r, char conv) {
    char c = conv >= 'A' && conv <= 'Z' ? (char) (conv + 32) : conv;
    if (r.chance(1, 7)) return otherFor(r, c);
    switch (c) {
      case 'd':
      case 'i':
      case 'u':
      case 'o':
      case 'x':
        return r.chance(1, 12) ? number(r) : integer(r);
      case 'f':
      case 'e':
      case 'g':
        return r.chance(1, 5) ? bigDecimal(r, 60) : r.chance(1, 8) ? number(r) : floating(r);
      case 'a':
        return floating(r);
      case 'c':
        return r.chance(1, 3) ? (Object) ch(r, r.below(7)) : r.bool() ? (Object) r.range(0, 65535) : string(r, 10) + "x";
      case 't':
        return temporal(r);
      default:
        return anyText(r, 70000);
    }
  }
}
