package fpv;

import java.io.BufferedOutputStream;
import java.io.DataOutputStream;
import java.util.ArrayList;
import java.util.List;
import java.util.Locale;
import java.util.TimeZone;

/**
 * The workload of C19 in a virtual machine of its own: Child base src seed first last mode file. Writes for
 * every case the hash of what went in and the hash of what came out.
 */
public final class Child {
  static final String CONV = "diuoxXfFeEgGaAsScdiuxXfFeEgGsS";

  static final class Case {
    final List<Object> items = new ArrayList<>();
    final List<Arg> args = new ArrayList<>();
    String fmt;

    long hash() {
      long h = Rng.hash(fmt);
      for (Arg a : args) h = Rng.mix(h, Rng.mix(a.hash(), a.prim ? 1 : 0));
      return h;
    }
  }

  /** Text that is the platform's business. */
  static boolean platformText(Object v) {
    if (v instanceof Object[]) {
      for (Object o : (Object[]) v) if (platformText(o) || o != null && o.getClass().isArray()) return true;
      return false;
    }
    return v instanceof Double
        || v instanceof Float
        || v instanceof double[]
        || v instanceof float[]
        || v instanceof java.util.Date
        || v instanceof java.util.Calendar
        || v instanceof java.time.temporal.TemporalAccessor;
  }

  /** Depends on nothing but the generator: the reference is not consulted here. */
  static Case make(Gen g, long seed, long i) {
    Rng r = new Rng(Rng.mix(Rng.mix(seed, Rng.hash("C19/child")), i));
    Case c = new Case();
    int n = r.chance(1, 4) ? r.range(2, 6) : 1;
    for (int k = 0; k < n; k++) {
      if (r.chance(1, 3)) c.items.add(Gen.string(r, r.below(8), r.below(7)) + "|");
      Spec s = g.spec(r, r.pick(CONV));
      boolean large = r.chance(1, 40);
      if (large) {
        s.width = r.chance(1, 3) ? Spec.NONE : Math.min(g.dict.count(r, Ref.LIMIT), Ref.LIMIT);
        if (r.chance(1, 3)) s.prec = r.below(Ref.LIMIT + 1);
      }
      s.width = s.width > 400 && !large ? s.width % 400 : s.width;
      if (s.width == 0) s.width = Spec.NONE;
      s.prec = s.prec > 400 && !large ? s.prec % 400 : s.prec;
      Object v;
      do {
        v = s.lower() == 's' ? g.anyText(r, large ? 20_000 : 200) : g.valueFor(r, s.conv);
      } while (s.lower() == 's' && platformText(v));
      if (v instanceof java.util.Date || v instanceof java.util.Calendar) v = r.below(1000);
      if (r.chance(1, 8)) {
        s.width = Spec.STAR;
        c.args.add(Arg.of(large ? r.range(-Ref.LIMIT, Ref.LIMIT) : r.range(-60, 60)));
      }
      if (r.chance(1, 8)) {
        s.prec = Spec.STAR;
        c.args.add(Arg.of(large ? r.range(-3, Ref.LIMIT) : r.range(-3, 60)));
      }
      c.items.add(s);
      c.args.add(new Arg(v, Arg.boxable(v) && r.bool()));
    }
    c.fmt = Program.format(c.items);
    return c;
  }

  static String outcome(Case c, int mode) {
    Lib.Out o = Lib.formatVia(mode == 0 ? 9 : mode, c.fmt, c.args);
    if (o.error == null) return "T" + o.text;
    return o.refused() ? "R" : "X" + o.error.getClass().getName();
  }

  public static void main(String[] a) throws Exception {
    long seed = Long.parseLong(a[2]);
    long first = Long.parseLong(a[3]), last = Long.parseLong(a[4]);
    String mode = a[5];
    Gen g = new Gen(Dict.load(a[1], a[0] + "/harness/known_literals.txt"));
    DataOutputStream out = new DataOutputStream(new BufferedOutputStream(new java.io.FileOutputStream(a[6]), 1 << 16));
    Locale[] hop = {
      new Locale("tr", "TR"), Locale.forLanguageTag("ar-EG-u-nu-arab"), Locale.forLanguageTag("th-TH-u-nu-thai"), Locale.GERMANY,
      new Locale("lt"), Locale.forLanguageTag("hi-IN-u-nu-deva"), Locale.ROOT, new Locale("az")
    };
    String[] zones = {"UTC", "Asia/Kathmandu", "America/St_Johns"};
    for (long i = first; i < last; i++) {
      if (mode.equals("hop") && i % 64 == 0) {
        Locale.setDefault(hop[(int) (i / 64 % hop.length)]);
        TimeZone.setDefault(TimeZone.getTimeZone(zones[(int) (i / 64 % zones.length)]));
      }
      Case c = make(g, seed, i);
      String s = outcome(c, (int) (i % 3));
      out.writeLong(c.hash());
      out.writeLong(Rng.hash(s));
      if (mode.equals("show")) {
        byte[] b = (Lib.show(c.fmt, c.args) + "\nresult: " + Report.quote(s)).getBytes("UTF-8");
        out.writeInt(b.length);
        out.write(b);
      }
    }
    out.close();
    Runtime.getRuntime().halt(0);
  }
}
