package fpv;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.ArrayList;
import java.util.List;
import java.util.concurrent.atomic.AtomicLong;

/** Steps executed by the instrumented library. */
public final class CheckC21 extends Check {
  /** Steps per call that need no justification. */
  private static final long FREE = 20_000;
  private volatile boolean growing;
  /** Room for a bounded memory of earlier calls to be cleared. */
  private static final long DIFFERENT = 16_000;
  /** Steps allowed per character of format, arguments and output. */
  private static final long PER_CHAR = 250;

  private final AtomicLong worst = new AtomicLong();
  private final AtomicLong steps = new AtomicLong();

  @Override
  public String level() {
    return "exploration";
  }

  @Override
  public String rule() {
    return "library instrumented to count entered methods, jumps back and bulk work it asks of the platform;"
        + " one evaluation = one compilation, list operation or format call whose steps were counted against "
        + FREE
        + " + "
        + PER_CHAR
        + " per character of format, arguments and output; distinct by format and argument content";
  }

  @Override
  public void run() throws Throwable {
    if (System.getenv("VERIF_CASE") == null) selfTest();
    cases("programs", 150_000, this::program);
    cases("formats", 2_500, this::formats);
    cases("broken formats", 2_500, this::broken);
    cases("texts", 3_000, this::texts);
    cases("numbers", 60_000, this::numbers);
    cases("lists", 400, this::lists);
    cases("repeated", 60, this::repeated);
    cases("different", 24, this::different);
    rep.extra("worst_steps_per_character", worst.get() / 100.0);
    rep.extra("steps_counted", steps.get());
  }

  private static Meter.Metered me() {
    return (Meter.Metered) Thread.currentThread();
  }

  /** The instrumentation has to be in place, or nothing was observed. */
  private void selfTest() throws InterruptedException {
    long[] n = new long[1];
    Meter.Metered t =
        new Meter.Metered(
            null,
            () -> {
              FastPrintf.compile("%d %s").format(1, "x");
              n[0] = me().steps;
            },
            "self test",
            0);
    t.start();
    t.join();
    if (n[0] < 10) throw new IllegalStateException("library is not instrumented: " + n[0] + " steps");
  }

  private interface Body {
    /** Returns the number of characters produced. */
    long run();
  }

  /** Counts one piece of work. Returns false if it went beyond the bound. */
  private boolean measure(String phase, long i, String what, long in, java.util.function.Supplier<String> show, Body b) {
    Meter.Metered m = me();
    m.steps = 0;
    // output is not known beforehand; nothing here prints more than 20 million characters
    m.limit = FREE + PER_CHAR * (in + 20_000_000L);
    long out = 0;
    boolean ended = true;
    try {
      out = b.run();
    } catch (Meter.TooMany e) {
      ended = false;
    } catch (RuntimeException e) {
      rep.count("refused");
    } finally {
      m.limit = Long.MAX_VALUE;
    }
    long n = m.steps;
    steps.addAndGet(n);
    rep.judged();
    rep.count(what);
    long bound = FREE + PER_CHAR * (in + out);
    if (n > FREE) worst.accumulateAndGet(100 * (n - FREE) / (in + out), Math::max);
    if (ended && n <= bound) return true;
    fail(phase, i, "too many steps", what + ": " + n + " steps for " + in + " characters in and " + out + " out (allowed " + bound + ")\n" + show.get());
    return false;
  }

  static long size(Object v) {
    if (v == null) return 4;
    if (v instanceof CharSequence) return ((CharSequence) v).length();
    if (v instanceof BigInteger) return ((BigInteger) v).bitLength() / 3 + 1;
    if (v instanceof BigDecimal) return ((BigDecimal) v).unscaledValue().bitLength() / 3 + 1;
    if (v.getClass().isArray()) return Ref.text(v).length();
    if (v instanceof Gen.Named) return v.toString().length();
    return 24;
  }

  private static String brief(String s) {
    return Report.quote(s.length() > 200 ? s.substring(0, 200) : s) + (s.length() > 200 ? "... of " + s.length() + " characters" : "");
  }

  private static long size(List<Arg> args) {
    long n = 1;
    for (Arg a : args) n += size(a.v);
    return n;
  }

  private boolean call(Rng r, String phase, long i, String fmt, List<Arg> args) {
    return call(r, phase, i, fmt, args, 0);
  }

  /** Lost is what a refused call may have prepared before it met the refused argument. */
  private boolean call(Rng r, String phase, long i, String fmt, List<Arg> args, long lost) {
    FastPrintf[] f = new FastPrintf[1];
    java.util.function.Supplier<String> show =
        () -> "format " + brief(fmt) + "\n" + Lib.show("", args.size() > 20 ? args.subList(0, 20) : args);
    if (!measure(phase, i, "compilations", fmt.length() + 1, () -> "format " + brief(fmt), () -> {
      f[0] = FastPrintf.compile(fmt);
      return 0;
    })) return false;
    if (f[0] == null) return true;
    FastPrintf v = r.chance(1, 3) ? f[0].enableThreadLocalCache() : f[0];
    int how = r.below(2 * Dest.KINDS);
    long in = fmt.length() + size(args) + lost;
    return measure(phase, i, "format calls", in, show, () -> {
      if (how >= Dest.KINDS || how == 3) return v.format(Lib.args(args)).length();
      Dest d = new Dest(how, "");
      v.format(d.to, Lib.args(args));
      return d.content().length();
    });
  }

  private void program(Rng r, long i) {
    Program p = Program.random(gen, r, 12, r.chance(1, 20) ? 20_000 : 60, "diuoxXfFeEgGaAsSctTpn");
    long lost = 0;
    try {
      Program.Expect e = Program.eval(p.items, p.args);
      if (e.refused) lost = e.text.length();
    } catch (Ref.Unspecified x) {
      lost = 70_000;
    }
    call(r, "programs", i, p.fmt, p.args, lost);
    rep.distinct(p.hash());
    if (rep.wantsSamples()) rep.sample(brief(p.fmt));
  }

  private static final String[] DIR = {
    "%d", "%s", "%5d|", "%x", "%c", "%.2f", "%-6s", "%e", "%S", "%g", "%*d", "%.*f", "%t{yyyy}", "%a", "%%", "%+-9.3d", "%5.3s"
  };

  private int big(Rng r) {
    int k = r.below(10);
    if (k < 2) return gen.dict.count(r, 60_000);
    return k < 8 ? r.range(200, 8_000) : r.range(8_000, 40_000);
  }

  /** Very many directives, very long literals. */
  private void formats(Rng r, long i) {
    int n = big(r);
    StringBuilder sb = new StringBuilder();
    List<Arg> args = new ArrayList<>();
    int mode = r.below(7);
    String one = r.pick(DIR);
    if (mode == 6) {
      // one date-time pattern with very much in it, and much text behind
      String piece = r.pick(new String[] {"''", "'a'", "'}'", "yyyy", "-", "'' x", "MM dd "});
      sb.append("%t{");
      for (int k = 0; k < n; k++) sb.append(piece);
      sb.append("'x'}").append(Ref.rep('z', r.range(0, 100_000)));
      args.add(Arg.of(java.time.LocalDate.ofEpochDay(n)));
      call(r, "formats", i, sb.toString(), args);
      rep.distinct(Rng.hash(sb));
      return;
    }
    for (int k = 0; k < n; k++) {
      String d = mode == 0 ? one : mode == 1 && r.chance(9, 10) ? "literal" : mode == 2 ? "%%" : r.pick(DIR);
      if (mode == 3 && k % 2 == 0) {
        sb.append("lit%%");
        continue;
      }
      sb.append(d);
      fill(d, k, args);
    }
    if (r.chance(1, 3)) sb.append(Gen.string(r, r.range(0, 100_000), 0).replace('%', '.'));
    if (r.chance(1, 10)) args = args.subList(0, r.below(args.size() + 1));
    call(r, "formats", i, sb.toString(), args);
    rep.distinct(Rng.hash(sb));
  }

  private static void fill(String d, int k, List<Arg> args) {
    if (!d.startsWith("%") || d.equals("%%")) return;
    if (d.indexOf('*') >= 0) args.add(Arg.of(k % 9));
    String t = d.replace("|", "");
    char c = d.indexOf('{') > 0 ? 't' : t.charAt(t.length() - 1);
    if (c == 's' || c == 'S') args.add(Arg.of(k % 7 == 0 ? (Object) k : "t" + k));
    else if (c == 'c') args.add(Arg.of('x'));
    else if (c == 't') args.add(Arg.of(java.time.LocalDate.ofEpochDay(k)));
    else if ("fega".indexOf(c) >= 0) args.add(Arg.of(k * 0.37));
    else args.add(Arg.of(k));
  }

  /** Long formats with a mistake, or with one odd piece repeated. */
  private void broken(Rng r, long i) {
    String[] piece = {"%", "%-", "%0", "%t{", "%t", "{", "}", "%5", "%.", "%*", "*", "%d", "9", "0", "%t{}", "%t{'", "''", " ", "+", "#", "%%", "%.9", "ab", "%q", "%5$d", "%-t{HH:mm}", "%t{yyyy"};
    StringBuilder sb = new StringBuilder();
    int n = big(r);
    int mode = r.below(4);
    String one = r.pick(piece), two = r.pick(piece);
    if (r.bool()) sb.append(r.pick(piece));
    for (int k = 0; k < n; k++) sb.append(mode == 0 ? one : mode == 1 ? (k % 2 == 0 ? one : two) : mode == 2 ? r.pick(DIR) : r.chance(19, 20) ? r.pick(DIR) : one);
    if (r.bool()) sb.append(r.pick(piece));
    if (r.bool()) sb.append(r.pick(piece));
    String fmt = sb.toString();
    measure("broken formats", i, "compilations", fmt.length() + 1, () -> "format " + brief(fmt), () -> {
      FastPrintf.compile(fmt);
      return 0;
    });
    rep.distinct(Rng.hash(fmt));
  }

  /** Long texts, arrays and paddings. */
  private void texts(Rng r, long i) {
    Spec s = gen.spec(r, r.pick("sSsSc"));
    int n = r.chance(1, 4) ? r.range(50_000, 400_000) : big(r);
    Object v;
    switch (r.below(11)) {
      case 8:
      case 9:
      case 10:
        {
          String t = Gen.string(r, Math.min(n, 60_000), r.below(4));
          v = Gen.ropes == null ? t : Gen.ropes.apply(r, t);
          break;
        }
      case 0:
        v = new int[n / 8];
        break;
      case 1:
        {
          Object[] a = new Object[n / 8];
          for (int k = 0; k < a.length; k++) a[k] = k % 5 == 0 ? null : (Object) ("e" + k);
          v = a;
          break;
        }
      case 2:
        v = new byte[n];
        break;
      case 3:
        v = Gen.string(r, n, r.below(4)).toCharArray();
        break;
      case 4:
        v = new Gen.Named(Gen.string(r, n, r.below(4)));
        break;
      default:
        v = Gen.sequence(r, Gen.string(r, n, r.below(4)));
    }
    if (r.bool()) s.width = r.range(1, 65536);
    if (r.chance(1, 3)) s.prec = r.range(0, 65536);
    List<Arg> args = Lib.list(Arg.of(v));
    call(r, "texts", i, s.text(), args);
    rep.distinct(Rng.mix(Rng.hash(s.text()), args.get(0).hash()));
  }

  /** Numbers whose size and exponent have nothing to do with each other. */
  private void numbers(Rng r, long i) {
    Object v;
    char conv;
    switch (r.below(4)) {
      case 0:
        v = gen.float64(r);
        conv = r.pick("fFeEgGaA");
        break;
      case 1:
        v = gen.integer(r);
        conv = r.pick("diuoxXfeg");
        break;
      case 2:
        v = new BigInteger(Gen.digits(r, r.chance(1, 30) ? r.range(1000, 8000) : r.range(1, 60)));
        conv = r.pick("diuoxXfeg");
        break;
      default:
        {
          BigInteger u = r.bool() ? BigInteger.valueOf(r.range(-20, 20)) : new BigInteger(Gen.digits(r, r.chance(1, 30) ? r.range(1000, 8000) : r.range(1, 60)));
          int scale = r.bool() ? r.range(-40, 40) : r.bool() ? r.range(0, 20_000) : r.range(100_000, Integer.MAX_VALUE);
          conv = r.pick("fFeEgGeEgGdis");
          BigDecimal b = new BigDecimal(u, scale);
          if ("eEgG".indexOf(conv) >= 0 && r.bool() && scale > 0) b = new BigDecimal(u, -scale);
          v = b;
        }
    }
    Spec s = gen.spec(r, conv);
    if (r.chance(1, 20)) s.width = r.range(1, 65536);
    if (r.chance(1, 20)) s.prec = r.range(0, 65536);
    List<Arg> args = new ArrayList<>();
    if (r.chance(1, 12)) {
      s.width = Spec.STAR;
      args.add(Arg.of(far(r)));
    }
    if (r.chance(1, 12)) {
      s.prec = Spec.STAR;
      args.add(Arg.of(far(r)));
    }
    args.add(Arg.of(r.chance(1, 40) && (s.conv == 'd' || s.conv == 'i') ? null : v));
    if (r.chance(1, 40)) {
      s = new Spec('c');
      args.clear();
      args.add(Arg.of(far(r)));
    }
    call(r, "numbers", i, s.text(), args);
    rep.distinct(Directive.hash(s, v));
  }

  /** A decimal whose exponent is far away; as an int it is small or zero. */
  private static BigDecimal far(Rng r) {
    BigDecimal b = new BigDecimal(BigInteger.valueOf(r.range(-99, 99)), r.range(20_000, 400_000));
    return r.bool() ? b : new BigDecimal(b.unscaledValue(), -b.scale());
  }

  /** A linked list: reaching an element takes as many steps as its index. */
  private static final class Chain extends java.util.AbstractSequentialList<Object> {
    private final List<Object> l;

    Chain(Object[] v) {
      l = java.util.Arrays.asList(v);
    }

    @Override
    public java.util.ListIterator<Object> listIterator(int index) {
      me().steps += index;
      return l.listIterator(index);
    }

    @Override
    public int size() {
      return l.size();
    }
  }

  /** Building, reading and listing long argument lists. */
  private void lists(Rng r, long i) {
    int n = big(r);
    List<Arg> l = new ArrayList<>();
    for (int k = 0; k < n; k++) {
      Object v = r.pick(new Object[] {k, "t" + k, k * 0.5, (char) k, null, (long) k, true, BigInteger.TEN, new BigDecimal("1.5")});
      l.add(new Arg(v, Arg.boxable(v) && r.bool()));
    }
    long in = size(l) + n;
    int mode = r.below(6);
    Args[] a = new Args[1];
    if (!measure("lists", i, "lists built", in, () -> n + " values", () -> {
      a[0] = mode == 0 ? Args.of(Lib.values(l)) : mode == 1 ? Args.of(java.util.Arrays.asList(Lib.values(l))) : mode < 4 ? Args.of(new Chain(Lib.values(l))) : Lib.args(l);
      return 0;
    })) return;
    if (!measure("lists", i, "lists read", in, () -> n + " values", () -> {
      int c = 0;
      for (Object t : a[0]) c += t == null ? 0 : 1;
      return c + a[0].values().size() + a[0].toString().length();
    })) return;
    FastPrintf f = FastPrintf.compile("%s %s");
    for (int k = 0; k <= Dest.KINDS; k++) {
      // surplus values are not looked at: the cost of a short format does not follow the list
      Dest d = k == Dest.KINDS ? null : new Dest(k, "");
      FastPrintf g = r.bool() ? f.enableThreadLocalCache() : f;
      if (!measure("lists", i, "format calls", 200, () -> "short format, " + n + " values, " + (d == null ? "string" : d.name), () -> {
        if (d == null) return g.format(a[0]).length();
        g.format(d.to, a[0]);
        return d.content().length();
      })) return;
    }
    rep.distinct(Rng.mix(n, Rng.mix(mode, size(l))));
  }

  /** The steps of a call do not depend on the calls before it. */
  private void repeated(Rng r, long i) {
    Program p = Program.random(gen, r, 5, 40, "diuoxXfFeEgGsSct");
    FastPrintf f = FastPrintf.compile(p.fmt);
    if (r.bool()) f = f.enableThreadLocalCache();
    FastPrintf g = f;
    Args a = Lib.args(p.args);
    int n = gen.dict.count(r, 20_000);
    long first = 0;
    boolean fresh = r.bool();
    Meter.Metered m = me();
    for (int k = 0; k < n; k++) {
      m.steps = 0;
      try {
        if (fresh) FastPrintf.compile(p.fmt).format(Lib.args(p.args));
        else g.format(a);
      } catch (RuntimeException e) {
        // refused calls count too
      }
      if (k == 2) first = m.steps;
      steps.addAndGet(m.steps);
      // a rare reorganisation may cost something, but not in proportion to what came before
      if (k > 2 && m.steps > first * 4 + FREE) {
        fail("repeated", i, "a call costs more after others", "call " + k + ": " + m.steps + " steps, the third " + first + "\n" + p.show());
        return;
      }
    }
    rep.judged();
    rep.count("repeated calls", n);
    rep.distinct(Rng.mix(p.hash(), n));
  }

  /** Neither do they depend on what was compiled and printed before, if all of it differs. */
  private void different(Rng r, long i) {
    if (growing) return;
    int n = r.range(30_000, 50_000);
    int mode = (int) (i % 8);
    String salt = Long.toString(r.bits(30), 36);
    Meter.Metered m = me();
    FastPrintf kept = FastPrintf.compile("%s %d %.3f %*d %t{yyyy}").enableThreadLocalCache();
    long first = 0;
    for (int k = 0; k < n; k++) {
      m.steps = 0;
      try {
        switch (mode) {
          case 0:
            FastPrintf.compile("%t{yyyy'" + salt + k + "'}");
            break;
          case 1:
            FastPrintf.compile(salt + k + " %d").format(k);
            break;
          case 2:
            FastPrintf.compile("%" + (k % 60_000 + 1) + "." + k / 7 % 60_000 + "x");
            break;
          case 3:
            kept.format(salt + k, k, k * 0.37, k % 50, k, java.time.LocalDate.ofEpochDay(k));
            break;
          case 4:
            FastPrintf.compile(salt + "%" + (char) (0x4e00 + k));
            break;
          case 5:
            FastPrintf.compile("%s").enableThreadLocalCache().setStringBuilderInitialCapacity(k + 1).format(new Gen.Named(salt + k));
            break;
          case 6:
            kept.format(k, salt + k);
            break;
          default:
            FastPrintf.compile("%e %g").format(BigDecimal.valueOf(k, k % 300), BigInteger.valueOf(k).pow(3));
        }
      } catch (RuntimeException e) {
        // refused ones count too
      }
      if (k >= 2 && k < 20) first = Math.max(first, m.steps);
      steps.addAndGet(m.steps);
      if (k >= 20 && m.steps > first * 8 + DIFFERENT) {
        growing = true;
        fail("different", i, "costs more after others", "kind " + mode + ", call " + k + ": " + m.steps + " steps, at first " + first);
        return;
      }
    }
    rep.judged();
    rep.count("different calls", n);
    rep.distinct(Rng.mix(mode, Rng.hash(salt)));
  }
}
