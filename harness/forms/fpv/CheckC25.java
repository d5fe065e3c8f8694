package fpv;

import io.fastprintf.PrintfException;
import io.fastprintf.number.FloatForm;
import io.fastprintf.number.FloatLayout;
import io.fastprintf.number.IntForm;
import io.fastprintf.number.NumberForm;
import io.fastprintf.seq.Seq;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.ArrayList;
import java.util.List;
import java.util.concurrent.Callable;

/** The forms of numbers that argument handlers hand to the formatter. */
public final class CheckC25 extends Check {
  @Override
  public String level() {
    return "exploration";
  }

  @Override
  public String rule() {
    return "integers of every size, doubles and decimals from the common generators; each form is read several"
        + " times in random order, and texts read earlier are read again; one evaluation = one answer of a"
        + " form; distinct by value and precision";
  }

  @Override
  public void run() throws Throwable {
    cases("integers", 500_000, this::integers);
    cases("doubles", 250_000, this::doubles);
    cases("decimals", 120_000, this::decimals);
  }

  private static String sign(NumberForm f, int want) {
    if (Integer.signum(f.signum()) != want) return "signum " + f.signum();
    if (f.isNegative() != want < 0) return "negative " + f.isNegative();
    if (f.isPositive() != want > 0) return "positive " + f.isPositive();
    if (f.isZero() != (want == 0)) return "zero " + f.isZero();
    return null;
  }

  private void integers(Rng r, long i) {
    Object v = r.chance(1, 6) ? (Object) gen.bigInteger(r) : null;
    long n = gen.int64(r);
    if (v == null) {
      switch (r.below(4)) {
        case 0:
          v = (byte) n;
          break;
        case 1:
          v = (short) n;
          break;
        case 2:
          v = (int) n;
          break;
        default:
          v = n;
      }
    }
    Ref.IntVal iv = Ref.intVal(v);
    BigInteger u = iv.bits == 0 ? iv.v : iv.v.mod(BigInteger.ONE.shiftLeft(iv.bits));
    String problem;
    try {
      IntForm f;
      if (v instanceof Byte) f = IntForm.valueOf((byte) (Byte) v);
      else if (v instanceof Short) f = IntForm.valueOf((short) (Short) v);
      else if (v instanceof Integer) f = IntForm.valueOf((int) (Integer) v);
      else if (v instanceof Long) f = IntForm.valueOf((long) (Long) v);
      else f = IntForm.valueOf((BigInteger) v);
      problem = null;
      int first = r.below(6);
      for (int k = 0; k < 9 && problem == null; k++) {
        rep.judged();
        switch ((first + k) % 6) {
          case 0:
            problem = sign(f, iv.v.signum());
            break;
          case 1:
            problem = same("decimal digits", iv.v.abs().toString(), f::toDecimalString);
            break;
          case 2:
            problem = unsigned("unsigned digits", u, 10, f::toUnsignedDecimalString);
            break;
          case 3:
            problem = unsigned("hexadecimal digits", u, 16, f::toHexString);
            break;
          case 4:
            problem = unsigned("octal digits", u, 8, f::toOctalString);
            break;
          default:
            problem = same("text", iv.v.toString(), f::toString);
        }
      }
    } catch (Throwable t) {
      problem = Report.trace(t);
    }
    rep.count("integer forms");
    rep.distinct(Arg.of(v).hash());
    if (rep.wantsSamples()) rep.sample(Arg.describe(v));
    if (problem != null) fail("integers", i, "integer form", problem + "\nof " + Arg.describe(v));
  }

  private static String same(String what, String want, Callable<String> c) {
    Lib.Out o = Lib.call(c);
    return o.error == null && want.equals(o.text) ? null : what + ": " + o + " instead of " + Report.quote(want);
  }

  private static String unsigned(String what, BigInteger u, int radix, Callable<String> c) {
    if (u.signum() >= 0) return same(what, u.toString(radix), c);
    Lib.Out o = Lib.call(c);
    return o.error instanceof PrintfException ? null : what + " of a negative number: " + o;
  }

  /** Texts handed out before, with what they were. */
  private static final class Kept {
    final List<Seq> q = new ArrayList<>();
    final List<String> s = new ArrayList<>();

    String add(Seq t) {
      if (t == null) return null;
      q.add(t);
      String x = t.toString();
      s.add(x);
      return x;
    }

    String changed() {
      for (int i = 0; i < q.size(); i++) if (!q.get(i).toString().equals(s.get(i))) return "a text handed out earlier has changed: " + s.get(i);
      return null;
    }
  }

  private int precision(Rng r) {
    return r.chance(1, 12) ? Math.max(0, gen.prec(r)) % 400 : r.below(r.bool() ? 8 : 40);
  }

  private String layout(FloatForm f, Ref.Dec d, int kind, int p, Kept kept) {
    p = Math.max(0, p);
    FloatLayout l = kind == 0 ? f.decimalLayout(p) : kind == 1 ? f.scientificLayout(p) : f.generalLayout(Math.max(1, p));
    String m = kept.add(l.getMantissa()), e = kept.add(l.getExponent());
    String shown = "layout " + "feg".charAt(kind) + " of precision " + p + ": " + m + " and " + e;
    if (m == null || !m.matches("[0-9]+(\\.[0-9]*)?")) return shown;
    if (e != null && !e.matches("[+-][0-9]{2,}")) return shown;
    if (!l.toString().equals(e == null ? m : m + "e" + e)) return shown + " shown as " + l;
    int dot = m.indexOf('.');
    int frac = dot < 0 ? 0 : m.length() - dot - 1;
    String want;
    if (kind == 0) {
      if (e != null || frac > p) return shown;
      want = Ref.fixed(d, p, false);
    } else if (kind == 1) {
      if (e == null || frac > p || dot > 1 || dot < 0 && m.length() != 1) return shown;
      want = Ref.scientific(d, p, false);
    } else {
      int q = Math.max(1, p);
      if ((e != null) != Ref.generalIsScientific(d, q)) return shown;
      want = Ref.general(d, q, false);
    }
    int we = want.indexOf('e');
    if (e != null && !e.equals(want.substring(we + 1))) return shown + " instead of " + want;
    String wm = we < 0 ? want : want.substring(0, we);
    return Ref.strip(m).equals(Ref.strip(wm)) ? null : shown + " instead of " + want;
  }

  private void doubles(Rng r, long i) {
    double d = gen.float64(r);
    String problem = null;
    StringBuilder how = new StringBuilder();
    try {
      FloatForm f = FloatForm.valueOf(d);
      Kept kept = new Kept();
      int steps = r.range(2, 8);
      for (int k = 0; k < steps && problem == null; k++) {
        rep.judged();
        int op = r.below(8);
        int p = precision(r);
        how.append(op).append('/').append(p).append(' ');
        if (op < 2 || Double.isNaN(d) || Double.isInfinite(d)) {
          if (f.isNaN() != Double.isNaN(d)) problem = "NaN " + f.isNaN();
          else if (f.isInfinite() != Double.isInfinite(d)) problem = "infinite " + f.isInfinite();
          else if (d == 0 && 1 / d < 0) problem = f.isNegative() ? null : "minus zero is not negative";
          else if (!Double.isNaN(d)) problem = sign(f, (int) Math.signum(d));
        } else if (op == 2) {
          // as the platform writes it from release 19 on
          problem = same("text", Double.toString(d), f::toString);
        } else if (op == 3) {
          FloatLayout l = f.hexLayout(p);
          String m = kept.add(l.getMantissa()), e = kept.add(l.getExponent());
          String want = Ref.hex(d, p == 0 ? -1 : p);
          if (e == null || !want.endsWith("p" + e) || !strip(want.substring(0, want.indexOf('p'))).equals(strip(m))) {
            problem = "hexadecimal layout of precision " + p + ": " + m + " and " + e + " instead of " + want;
          }
        } else {
          problem = layout(f, Ref.dec(d), op % 3, p, kept);
        }
        if (problem == null) problem = kept.changed();
      }
    } catch (Throwable t) {
      problem = Report.trace(t);
    }
    rep.count("double forms");
    rep.distinct(Rng.mix(Double.doubleToRawLongBits(d), Rng.hash(how)));
    if (rep.wantsSamples()) rep.sample(Arg.describe(d));
    if (problem != null) fail("doubles", i, "double form", problem + "\nof " + Arg.describe(d) + "\nasked: " + how);
  }

  private static String strip(String m) {
    int n = m.length();
    while (n > 1 && m.charAt(n - 1) == '0' && m.charAt(n - 2) != '.') n--;
    return m.substring(0, n);
  }

  private void decimals(Rng r, long i) {
    BigDecimal d = gen.bigDecimal(r, 300);
    String problem = null;
    StringBuilder how = new StringBuilder();
    try {
      FloatForm f = FloatForm.valueOf(d);
      Kept kept = new Kept();
      int steps = r.range(2, 8);
      for (int k = 0; k < steps && problem == null; k++) {
        rep.judged();
        int op = r.below(8);
        int p = precision(r);
        how.append(op).append('/').append(p).append(' ');
        if (op == 0) problem = f.isNaN() || f.isInfinite() ? "NaN or infinite" : sign(f, d.signum());
        else if (op == 1) problem = same("text", d.toString(), f::toString);
        else if (op == 2) {
          Lib.Out o = Lib.call(() -> f.hexLayout(p).toString());
          if (!(o.error instanceof PrintfException)) problem = "hexadecimal layout: " + o;
        } else problem = layout(f, Ref.dec(d), op % 3, p, kept);
        if (problem == null) problem = kept.changed();
      }
    } catch (Ref.Unspecified u) {
      return;
    } catch (Throwable t) {
      problem = Report.trace(t);
    }
    rep.count("decimal forms");
    rep.distinct(Rng.mix(Rng.hash(d.toString()), Rng.hash(how)));
    if (problem != null) fail("decimals", i, "decimal form", problem + "\nof " + Arg.describe(d) + "\nasked: " + how);
  }
}
