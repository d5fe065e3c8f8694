package fpv;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.DateTimeException;
import java.time.Instant;
import java.time.temporal.TemporalAccessor;
import java.util.Arrays;
import java.util.Base64;
import java.util.Calendar;
import java.util.Date;

/**
 * Independent reference of what a directive prints. Shares nothing with the code under test: decimal
 * work is done on digit strings, hexadecimal floats on the raw bits.
 */
public final class Ref {

  /** The library must refuse this argument with its formatting exception. */
  public static final class Refused extends RuntimeException {
    public Refused(String m) {
      super(m, null, false, false);
    }
  }

  /** The properties do not say what happens here. */
  public static final class Unspecified extends RuntimeException {
    public Unspecified(String m) {
      super(m, null, false, false);
    }
  }

  private Ref() {}

  // ---------------------------------------------------------------- padding

  public static String rep(char c, int n) {
    if (n <= 0) return "";
    char[] a = new char[n];
    Arrays.fill(a, c);
    return new String(a);
  }

  public static String justify(Spec s, String t) {
    if (s.width <= t.length()) return t;
    String pad = rep(' ', s.width - t.length());
    return s.minus ? t + pad : pad + t;
  }

  public static String upper(String t) {
    char[] a = null;
    for (int i = 0; i < t.length(); i++) {
      char c = t.charAt(i);
      if (c >= 'a' && c <= 'z') {
        if (a == null) a = t.toCharArray();
        a[i] = (char) (c - 32);
      }
    }
    return a == null ? t : new String(a);
  }

  private static String signText(Spec s, boolean neg) {
    return neg ? "-" : s.plus ? "+" : s.space ? " " : "";
  }

  // --------------------------------------------------------------- integers

  /** Integer reading of an argument: value plus operand size (0 = unbounded). */
  public static final class IntVal {
    final BigInteger v;
    final int bits;

    IntVal(BigInteger v, int bits) {
      this.v = v;
      this.bits = bits;
    }

    IntVal(long v, int bits) {
      this(BigInteger.valueOf(v), bits);
    }
  }

  public static IntVal intVal(Object v) {
    if (v == null) throw new Refused("null");
    if (v instanceof Boolean) return new IntVal((Boolean) v ? 1 : 0, 32);
    if (v instanceof Character) return new IntVal((Character) v, 32);
    if (v instanceof Byte) return new IntVal((Byte) v, 8);
    if (v instanceof Short) return new IntVal((Short) v, 16);
    if (v instanceof Integer) return new IntVal((Integer) v, 32);
    if (v instanceof Long) return new IntVal((Long) v, 64);
    if (v instanceof Float) return new IntVal((int) (float) (Float) v, 32);
    if (v instanceof Double) return new IntVal((long) (double) (Double) v, 64);
    if (v instanceof CharSequence) {
      try {
        return new IntVal(Long.parseLong(v.toString()), 64);
      } catch (NumberFormatException e) {
        throw new Refused("text");
      }
    }
    if (v instanceof BigInteger) return new IntVal((BigInteger) v, 0);
    if (v instanceof BigDecimal) return new IntVal(((BigDecimal) v).toBigInteger(), 0);
    if (v instanceof TemporalAccessor) {
      Instant i = instant((TemporalAccessor) v);
      try {
        return new IntVal(i.toEpochMilli(), 64);
      } catch (ArithmeticException e) {
        throw new Refused("instant out of range");
      }
    }
    if (v instanceof Number) return new IntVal(((Number) v).longValue(), 64);
    if (v instanceof Date) return new IntVal(((Date) v).getTime(), 64);
    if (v instanceof Calendar) return new IntVal(((Calendar) v).getTimeInMillis(), 64);
    throw new Refused("object");
  }

  private static Instant instant(TemporalAccessor t) {
    try {
      return Instant.from(t);
    } catch (DateTimeException e) {
      throw new Refused("temporal");
    }
  }

  /** Reading of an argument as dynamic width or precision. */
  public static int star(Object v) {
    if (v == null) throw new Refused("null");
    if (v instanceof Boolean) return (Boolean) v ? 1 : 0;
    if (v instanceof Character) return (Character) v;
    if (v instanceof Byte || v instanceof Short || v instanceof Integer) {
      return ((Number) v).intValue();
    }
    if (v instanceof CharSequence) {
      try {
        return Integer.parseInt(v.toString());
      } catch (NumberFormatException e) {
        throw new Refused("text");
      }
    }
    if (v instanceof Float) return exactRound((Float) v);
    if (v instanceof Double) return exactRound((Double) v);
    if (v instanceof BigDecimal) {
      BigDecimal b = (BigDecimal) v;
      if (b.abs().compareTo(BigDecimal.valueOf(1000000)) > 0) throw new Unspecified("huge");
      return b.toBigInteger().intValue();
    }
    if (v instanceof TemporalAccessor) {
      return narrow(instant((TemporalAccessor) v).getEpochSecond());
    }
    if (v instanceof BigInteger) {
      if (((BigInteger) v).bitLength() > 31) throw new Unspecified("huge");
      return ((BigInteger) v).intValue();
    }
    if (v instanceof Number) return narrow(((Number) v).longValue());
    if (v instanceof Date) return narrow(((Date) v).getTime() / 1000L);
    if (v instanceof Calendar) return narrow(((Calendar) v).getTimeInMillis() / 1000L);
    throw new Refused("object");
  }

  private static int exactRound(double d) {
    // Only whole numbers have an unquestionable reading as a width.
    if (d != Math.rint(d) || Math.abs(d) > 1000000) throw new Unspecified("fraction");
    return (int) d;
  }

  private static int narrow(long l) {
    if ((int) l != l) throw new Unspecified("beyond 32 bits");
    return (int) l;
  }

  private static String integer(Spec s, IntVal iv) {
    BigInteger v = iv.v;
    char c = s.lower();
    boolean signed = c == 'd' || c == 'i';
    boolean zero = v.signum() == 0;
    String sign = "";
    String prefix = "";
    String digits;
    if (signed) {
      digits = v.abs().toString();
      sign = signText(s, v.signum() < 0);
    } else {
      if (v.signum() < 0) {
        if (iv.bits == 0) throw new Refused("negative unbounded");
        v = v.add(BigInteger.ONE.shiftLeft(iv.bits));
      }
      digits = v.toString(c == 'o' ? 8 : c == 'x' ? 16 : 10);
      if (s.alt && c == 'x' && !zero) prefix = "0x";
    }
    if (zero && s.prec == 0) digits = "";
    if (s.prec > digits.length()) digits = rep('0', s.prec - digits.length()) + digits;
    if (s.alt && c == 'o' && !digits.startsWith("0")) digits = "0" + digits;
    if (s.prec < 0 && s.zero && !s.minus) {
      digits = rep('0', s.width - sign.length() - prefix.length() - digits.length()) + digits;
    }
    return justify(s, sign + prefix + digits);
  }

  // --------------------------------------------------------------- decimals

  /** 0.d1d2d3... x 10^exp; digits has no leading zero; empty digits = zero. */
  public static final class Dec {
    final String digits;
    final long exp;
    final boolean neg;

    Dec(String digits, long exp, boolean neg) {
      int i = 0;
      while (i < digits.length() && digits.charAt(i) == '0') i++;
      int j = digits.length();
      while (j > i && digits.charAt(j - 1) == '0') j--;
      if (i == j) {
        this.digits = "";
        this.exp = 0;
      } else {
        this.digits = digits.substring(i, j);
        this.exp = exp - i;
      }
      this.neg = neg;
    }

    boolean zero() {
      return digits.isEmpty();
    }

    /** Rounded half up after n leading digits (n may be negative). */
    Dec round(long n) {
      if (n >= digits.length()) return this;
      if (n < 0) return new Dec("", 0, neg);
      int k = (int) n;
      boolean up = digits.charAt(k) >= '5';
      char[] a = ("0" + digits.substring(0, k)).toCharArray();
      if (up) {
        int i = k;
        while (a[i] == '9') a[i--] = '0';
        a[i]++;
      }
      return new Dec(new String(a), exp + 1, neg);
    }
  }

  public static Dec dec(double d) {
    String s = Double.toString(Math.abs(d));
    boolean neg = Double.doubleToRawLongBits(d) < 0;
    int e = s.indexOf('E');
    long exp = 0;
    if (e >= 0) {
      exp = Integer.parseInt(s.substring(e + 1));
      s = s.substring(0, e);
    }
    int dot = s.indexOf('.');
    return new Dec(s.substring(0, dot) + s.substring(dot + 1), exp + dot, neg);
  }

  public static Dec dec(BigDecimal b) {
    String u = b.unscaledValue().abs().toString();
    return new Dec(u, (long) u.length() - b.scale(), b.signum() < 0);
  }

  /** Number reading for float conversions: Double or BigDecimal. */
  public static Object floatVal(Object v) {
    if (v == null) throw new Refused("null");
    if (v instanceof Boolean) return (Boolean) v ? 1d : 0d;
    if (v instanceof Character) return (double) (Character) v;
    if (v instanceof BigInteger) return new BigDecimal((BigInteger) v);
    if (v instanceof BigDecimal) return v;
    if (v instanceof CharSequence) {
      try {
        return Double.parseDouble(v.toString());
      } catch (NumberFormatException e) {
        throw new Refused("text");
      }
    }
    if (v instanceof Number) return ((Number) v).doubleValue();
    if (v instanceof TemporalAccessor) {
      Instant i = instant((TemporalAccessor) v);
      double secs = i.getEpochSecond();
      secs += i.getNano() / 1e9;
      return secs;
    }
    if (v instanceof Date) return ((Date) v).getTime() / 1000.0;
    if (v instanceof Calendar) return ((Calendar) v).getTimeInMillis() / 1000.0;
    throw new Refused("object");
  }

  static String fixed(Dec d, int frac, boolean alt) {
    Dec r = d.round(d.exp + frac);
    StringBuilder sb = new StringBuilder();
    long e = r.zero() ? 0 : r.exp;
    if (e > 5000000) throw new Unspecified("too large to print");
    if (e <= 0) {
      sb.append('0');
    } else {
      int k = (int) Math.min(e, r.digits.length());
      sb.append(r.digits, 0, k).append(rep('0', (int) (e - k)));
    }
    if (frac > 0) {
      sb.append('.');
      int start = sb.length();
      if (!r.zero()) {
        if (e < 0) sb.append(rep('0', (int) Math.min(frac, -e)));
        int from = (int) Math.max(0, Math.min(e, r.digits.length()));
        sb.append(r.digits, from, r.digits.length());
      }
      sb.append(rep('0', frac - (sb.length() - start)));
    } else if (alt) {
      sb.append('.');
    }
    return sb.toString();
  }

  static String exponent(long x) {
    String a = Long.toString(Math.abs(x));
    return (x < 0 ? "-" : "+") + (a.length() < 2 ? "0" + a : a);
  }

  static String scientific(Dec d, int frac, boolean alt) {
    Dec r = d.round(1L + frac);
    StringBuilder sb = new StringBuilder();
    sb.append(r.zero() ? '0' : r.digits.charAt(0));
    if (frac > 0) {
      sb.append('.');
      if (!r.zero()) sb.append(r.digits, 1, r.digits.length());
      sb.append(rep('0', frac - Math.max(0, r.digits.length() - 1)));
    } else if (alt) {
      sb.append('.');
    }
    return sb.append('e').append(exponent(r.zero() ? 0 : r.exp - 1)).toString();
  }

  static String strip(String t) {
    if (t.indexOf('.') < 0) return t;
    int n = t.length();
    while (t.charAt(n - 1) == '0') n--;
    if (t.charAt(n - 1) == '.') n--;
    return t.substring(0, n);
  }

  /** True if %g prints this value in scientific notation at significant digits p. */
  static boolean generalIsScientific(Dec d, int p) {
    if (d.zero()) return false;
    Dec r = d.round(p);
    long x = r.exp - 1;
    return x < -4 || x >= p;
  }

  static String general(Dec d, int prec, boolean alt) {
    int p = prec < 0 ? 6 : prec == 0 ? 1 : prec;
    if (generalIsScientific(d, p)) {
      String t = scientific(d, p - 1, alt);
      if (alt) return t;
      int e = t.indexOf('e');
      return strip(t.substring(0, e)) + t.substring(e);
    }
    long x = d.zero() ? 0 : d.round(p).exp - 1;
    String t = fixed(d, (int) (p - 1 - x), alt);
    return alt ? t : strip(t);
  }

  private static String signZeroJustify(Spec s, boolean neg, String prefix, String body) {
    String sign = signText(s, neg);
    if (s.zero && !s.minus) {
      body = rep('0', s.width - sign.length() - prefix.length() - body.length()) + body;
    }
    return justify(s, sign + prefix + body);
  }

  private static String floating(Spec s, Object n) {
    char c = s.lower();
    if (n instanceof Double) {
      double d = (Double) n;
      if (Double.isNaN(d)) return justify(s, "NaN");
      if (Double.isInfinite(d)) return justify(s, signText(s, d < 0) + "Infinity");
      if (c == 'a') {
        int p = s.prec == 0 ? 1 : s.prec;
        return signZeroJustify(s, Double.doubleToRawLongBits(d) < 0, "0x", hex(d, p));
      }
    } else if (c == 'a') {
      throw new Refused("hex of unbounded decimal");
    }
    Dec dec = n instanceof Double ? dec((double) (Double) n) : dec((BigDecimal) n);
    String body;
    if (c == 'f') body = fixed(dec, s.prec < 0 ? 6 : s.prec, s.alt);
    else if (c == 'e') body = scientific(dec, s.prec < 0 ? 6 : s.prec, s.alt);
    else body = general(dec, s.prec, s.alt);
    return signZeroJustify(s, dec.neg, "", body);
  }

  /**
   * True if the exact digits are left open: '#' with g in scientific notation, where only value,
   * notation and padding are fixed.
   */
  public static boolean openForm(Spec s, Object v) {
    if (s.lower() != 'g' || !s.alt) return false;
    Object n = floatVal(v);
    if (n instanceof Double && (((Double) n).isNaN() || ((Double) n).isInfinite())) return false;
    Dec dec = n instanceof Double ? dec((double) (Double) n) : dec((BigDecimal) n);
    return generalIsScientific(dec, s.prec < 0 ? 6 : s.prec == 0 ? 1 : s.prec);
  }

  /** Decides an actual output when {@link #openForm} holds. Returns null if acceptable. */
  public static String judgeOpen(Spec s, Object v, String actual) {
    Spec plain = s.clone();
    plain.alt = false;
    plain.width = Spec.NONE;
    String want = Ref.render(plain, v); // [sign]d[.ddd]e+XX
    String t = actual;
    int w = Math.max(s.width, 0);
    if (t.length() < w) return "shorter than the width";
    char e = s.upper() ? 'E' : 'e';
    int we = want.indexOf(e);
    String tail = want.substring(we);
    String wm = want.substring(0, we);
    String sign = wm.isEmpty() || Character.isDigit(wm.charAt(0)) ? "" : wm.substring(0, 1);
    wm = wm.substring(sign.length());
    String core = t;
    if (s.minus) {
      int k = core.length();
      while (k > 0 && core.charAt(k - 1) == ' ') k--;
      core = core.substring(0, k);
    } else if (!s.zero) {
      int k = 0;
      while (k < core.length() && core.charAt(k) == ' ') k++;
      if (sign.equals(" ")) k = Math.max(0, k - 1);
      core = core.substring(k);
    }
    if (!core.startsWith(sign)) return "sign";
    core = core.substring(sign.length());
    boolean padded = t.length() > sign.length() + core.length();
    int zeros = 0;
    if (s.zero && !s.minus) {
      while (zeros + 1 < core.length()
          && core.charAt(zeros) == '0'
          && core.charAt(zeros + 1) >= '0'
          && core.charAt(zeros + 1) <= '9') {
        zeros++;
      }
      core = core.substring(zeros);
      padded |= zeros > 0;
    }
    if (padded && t.length() != w) return "padding beyond the width";
    if (!core.endsWith(tail)) return "exponent";
    String m = core.substring(0, core.length() - tail.length());
    if (!m.matches("[0-9](\\.[0-9]*)?")) return "mantissa form";
    int p = s.prec < 0 ? 6 : s.prec == 0 ? 1 : s.prec;
    if (m.replace(".", "").length() > p) return "too many digits";
    if (!strip(m).equals(wm)) return "digits";
    return null;
  }

  // -------------------------------------------------------------- hex float

  static String hex(double d, int prec) {
    long bits = Double.doubleToRawLongBits(d) & Long.MAX_VALUE;
    int be = (int) (bits >>> 52);
    long frac = bits & ((1L << 52) - 1);
    if (bits == 0) return "0." + rep('0', Math.max(1, prec)) + "p+0";
    String lead;
    int e;
    if (prec < 0 || prec >= 13) {
      lead = be == 0 ? "0" : "1";
      e = be == 0 ? -1022 : be - 1023;
    } else {
      if (be == 0) {
        int sh = Long.numberOfLeadingZeros(frac) - 11;
        frac = (frac << sh) & ((1L << 52) - 1);
        e = -1022 - sh;
      } else {
        e = be - 1023;
      }
      lead = "1";
      int drop = 52 - 4 * prec;
      BigInteger f = BigInteger.valueOf(frac);
      BigInteger[] qr = f.divideAndRemainder(BigInteger.ONE.shiftLeft(drop));
      int cmp = qr[1].shiftLeft(1).compareTo(BigInteger.ONE.shiftLeft(drop));
      BigInteger q = qr[0];
      if (cmp > 0 || (cmp == 0 && q.testBit(0))) q = q.add(BigInteger.ONE);
      if (q.bitLength() > 4 * prec) {
        q = BigInteger.ZERO;
        e++;
      }
      frac = q.shiftLeft(drop).longValue();
    }
    String h = Long.toHexString(frac);
    h = rep('0', 13 - h.length()) + h;
    int n = 13;
    while (n > 1 && h.charAt(n - 1) == '0') n--;
    h = h.substring(0, n);
    if (prec > h.length()) h += rep('0', prec - h.length());
    return lead + "." + h + "p" + (e < 0 ? "-" : "+") + Math.abs(e);
  }

  // ------------------------------------------------------------------- text

  public static String text(Object v) {
    if (v == null) return "null";
    if (v instanceof byte[]) return Base64.getEncoder().encodeToString((byte[]) v);
    if (v instanceof char[]) return new String((char[]) v);
    Class<?> c = v.getClass();
    if (c.isArray()) {
      StringBuilder sb = new StringBuilder("[");
      int n = java.lang.reflect.Array.getLength(v);
      for (int i = 0; i < n; i++) {
        if (i > 0) sb.append(", ");
        sb.append(String.valueOf(java.lang.reflect.Array.get(v, i)));
      }
      return sb.append(']').toString();
    }
    return v.toString();
  }

  public static char chr(Object v) {
    if (v == null) throw new Refused("null");
    if (v instanceof Character) return (Character) v;
    if (v instanceof CharSequence) {
      String t = v.toString();
      if (t.isEmpty()) throw new Refused("empty");
      return t.charAt(0);
    }
    if (v instanceof TemporalAccessor) throw new Refused("temporal");
    if (v instanceof Date || v instanceof Calendar) throw new Unspecified("date as character");
    int i = star(v);
    if (i < Short.MIN_VALUE || i > 0xFFFF) throw new Unspecified("not a char code");
    return (char) i;
  }

  // ---------------------------------------------------------------- dispatch

  /** Rendering for a directive whose width and precision are already numbers (or absent). */
  public static String render(Spec s, Object v) {
    String t;
    switch (s.lower()) {
      case 'd':
      case 'i':
      case 'u':
      case 'o':
      case 'x':
        t = integer(s, intVal(v));
        break;
      case 'f':
      case 'e':
      case 'g':
      case 'a':
        t = floating(s, floatVal(v));
        break;
      case 's':
        t = text(v);
        if (s.prec >= 0 && s.prec < t.length()) t = t.substring(0, s.prec);
        t = justify(s, t);
        break;
      case 'c':
        t = justify(s, String.valueOf(chr(v)));
        break;
      case 'n':
        return "";
      case 'p':
        t =
            justify(
                s,
                v == null
                    ? "null"
                    : v.getClass().getName()
                        + "@"
                        + Integer.toHexString(System.identityHashCode(v)));
        break;
      case 't':
        t = justify(s, RefTime.format(s, v));
        break;
      default:
        throw new AssertionError("conversion " + s.conv);
    }
    return s.upper() ? upper(t) : t;
  }

  public static final int LIMIT = 65536;

  /** Replaces dynamic width/precision by the given argument values. */
  public static Spec resolve(Spec s, Object widthArg, Object precArg) {
    if (s.width != Spec.STAR && s.prec != Spec.STAR) return s;
    Spec r = s.clone();
    if (s.width == Spec.STAR) {
      int w = star(widthArg);
      if (w < 0) {
        r.minus = true;
        if (w == Integer.MIN_VALUE) throw new Refused("width");
        w = -w;
      }
      if (w > LIMIT) throw new Refused("width");
      r.width = w;
    }
    if (s.prec == Spec.STAR) {
      int p = star(precArg);
      if (p > LIMIT) throw new Refused("precision");
      r.prec = p < 0 ? Spec.NONE : p;
    }
    return r;
  }
}
