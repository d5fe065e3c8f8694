package fpv;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.PrintfException;
import io.fastprintf.PrintfSyntaxException;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Iterator;
import java.util.List;

/** Misuse of the interface, and what refusals say. */
public final class CheckC22 extends Check {
  private final CheckC09 formats = new CheckC09();

  @Override
  public String level() {
    return "exploration";
  }

  @Override
  public String rule() {
    return "random histories mixing correct calls with missing or impossible arguments of the interface itself,"
        + " malformed formats with the report they raise, and refused conversions with their message; one"
        + " evaluation = one refusal or call judged; distinct by operation and content";
  }

  @Override
  public void run() throws Throwable {
    formats.gen = gen;
    cases("misuse", 40_000, this::misuse);
    cases("syntax", 500_000, this::syntax);
    cases("made", 60_000, this::made);
    cases("templates", 150_000, this::templates);
    cases("unspeakable", 30_000, this::unspeakable);
    cases("refusals", 250_000, this::refusals);
  }

  private interface Op {
    void run() throws Exception;
  }

  /** Fails when looked at. */
  private static final class Untouched implements CharSequence {
    boolean touched;

    private String t() {
      touched = true;
      return "t";
    }

    @Override
    public int length() {
      return t().length();
    }

    @Override
    public char charAt(int i) {
      return t().charAt(i);
    }

    @Override
    public CharSequence subSequence(int a, int b) {
      return t().subSequence(a, b);
    }

    @Override
    public String toString() {
      return t();
    }
  }

  private boolean refused(long i, String what, Class<?> kind, Op op) {
    Throwable t = null;
    try {
      op.run();
    } catch (Throwable x) {
      t = x;
    }
    rep.judged();
    rep.count("misuses tried");
    if (t != null && kind.isInstance(t)) return true;
    fail("misuse", i, "misuse not refused properly", what + "\nactual: " + (t == null ? "accepted" : t.toString()));
    return false;
  }

  private void misuse(Rng r, long i) {
    Program p = Program.random(gen, r, 4, 20, "diuxXfeEgGacsS");
    p.items.add(new Spec('s'));
    String fmt = Program.format(p.items);
    FastPrintf f = FastPrintf.compile(fmt);
    if (r.bool()) f = f.enableThreadLocalCache();
    int steps = r.range(2, 10);
    Class<?> any = RuntimeException.class;
    for (int s = 0; s < steps; s++) {
      FastPrintf g = f;
      Untouched u = new Untouched();
      StringBuilder sb = new StringBuilder("before");
      Dest w = new Dest(r.below(Dest.KINDS), "before");
      Object[] many = new Object[40];
      Arrays.fill(many, u);
      int op = r.below(14);
      boolean ok = true;
      switch (op) {
        case 0:
          ok = refused(i, "null format", any, () -> FastPrintf.compile(null));
          break;
        case 1:
          ok = refused(i, "null argument list", any, () -> g.format((Args) null));
          break;
        case 2:
          ok = refused(i, "builder and null argument list", any, () -> g.format(sb, null));
          break;
        case 3:
          ok = refused(i, w.name + " and null argument list", any, () -> g.format(w.to, null));
          break;
        case 4:
          ok = refused(i, "null destination", any, () -> g.format((Appendable) null, Args.of(many)));
          break;
        case 5:
          ok = refused(i, "null string builder", any, () -> g.format((StringBuilder) null, Args.of(many)));
          break;
        case 6:
          ok = refused(i, "null iterable", any, () -> Args.of((Iterable<?>) null));
          break;
        case 7:
          {
            int c = r.bool() ? -r.below(3) : -(int) Math.abs(gen.int64(r) % Integer.MAX_VALUE);
            ok = refused(i, "capacity " + c, IllegalArgumentException.class, () -> g.setStringBuilderInitialCapacity(c));
            break;
          }
        case 8:
          {
            int c = r.bool() ? -1 - r.below(3) : -1 - (int) Math.abs(gen.int64(r) % Integer.MAX_VALUE);
            ok = refused(i, "expected size " + c, IllegalArgumentException.class, () -> Args.createWithExpectedSize(c));
            break;
          }
        case 9:
          {
            // a null array stands for one null value
            rep.judged();
            String got = Lib.call(() -> FastPrintf.compile("<%s>").format((Object[]) null)).toString();
            List<Object> l = Args.of((Object[]) null).values();
            if (!got.equals(Report.quote("<null>")) || l.size() != 1 || l.get(0) != null) {
              fail("misuse", i, "a null array is not one null", got + " " + l);
              ok = false;
            }
            break;
          }
        case 10:
          {
            // an iterable that fails midway: the failure arrives as it is
            int at = r.below(6);
            RuntimeException x = new IllegalStateException("injected");
            Throwable got = null;
            try {
              Args.of(failing(at, x));
            } catch (Throwable t) {
              got = t;
            }
            rep.judged();
            if (got != x) {
              fail("misuse", i, "failing iterable", "failed at " + at + ", actual: " + got);
              ok = false;
            }
            break;
          }
        case 11:
          {
            int n = r.pick(new int[] {0, 0, 1, 5, 1000});
            Args a = Args.createWithExpectedSize(n);
            rep.judged();
            if (!a.values().isEmpty() || a.iterator().hasNext()) {
              fail("misuse", i, "expected size " + n + " makes a list that is not empty", "" + a.values());
              ok = false;
            }
            break;
          }
        case 12:
          {
            rep.judged();
            FastPrintf a = g.enableThreadLocalCache();
            int c = r.chance(1, 3) ? 1 : r.range(1, 5000);
            List<Arg> l = Program.fill(gen, r, p.items, 20);
            String want = Program.eval(p.items, l).text;
            Lib.Out o = Lib.call(() -> (r.bool() ? a : g).setStringBuilderInitialCapacity(c).format(Lib.args(l)));
            if (a == null || a.enableThreadLocalCache() == null) {
              fail("misuse", i, "re-configuration returned null", fmt);
              ok = false;
            } else if (o.error != null || !o.text.equals(want)) {
              fail("misuse", i, "with capacity " + c, Lib.show(fmt, l) + "\nexpected: " + Report.quote(want) + "\nactual:   " + o);
              ok = false;
            }
            break;
          }
        default:
          {
            // a huge capacity is only a hint until a call is made
            int c = r.bool() ? Integer.MAX_VALUE : 1_500_000_000 + r.below(100_000_000);
            Lib.Out o = Lib.call(() -> g.setStringBuilderInitialCapacity(c).setStringBuilderInitialCapacity(30).format(Lib.args(Program.fill(gen, new Rng(i), p.items, 10))));
            rep.judged();
            if (o.error != null) {
              fail("misuse", i, "a capacity that was never used", c + ": " + o);
              ok = false;
            }
          }
      }
      rep.distinct(Rng.mix(Rng.hash(fmt), Rng.mix(op, s)));
      if (!ok) return;
      if (u.touched || !sb.toString().equals("before") || !w.content().equals("before")) {
        fail("misuse", i, "a refused call had an effect", "operation " + op + ": " + (u.touched ? "an argument was read" : "something was written: " + sb + w.content()));
        return;
      }
      // and nothing is left behind
      List<Arg> args = Program.fill(gen, r, p.items, 20);
      Program.Expect e = Program.eval(p.items, args);
      Lib.Out o = Lib.call(() -> g.format(Lib.args(args)));
      rep.judged();
      if (o.error != null || !o.text.equals(e.text)) {
        fail("misuse", i, "wrong result after misuse", "operation " + op + "\n" + Lib.show(fmt, args) + "\nexpected: " + Report.quote(e.text) + "\nactual:   " + o);
        return;
      }
    }
    if (rep.wantsSamples()) rep.sample(Report.quote(fmt));
  }

  private static Iterable<Object> failing(int at, RuntimeException x) {
    return () ->
        new Iterator<Object>() {
          int n;

          @Override
          public boolean hasNext() {
            return true;
          }

          @Override
          public Object next() {
            if (n++ == at) throw x;
            return n;
          }
        };
  }

  private void syntax(Rng r, long i) {
    StringBuilder sb = new StringBuilder(formats.valid(r));
    switch (r.below(3)) {
      case 0:
        for (int k = r.range(1, 3); k > 0; k--) formats.mutate(r, sb);
        break;
      case 1:
        sb.append('%');
        if (r.bool()) sb.append(CheckC09.TOKENS[r.below(CheckC09.TOKENS.length)]);
        break;
      default:
        sb.setLength(0);
        for (int k = r.range(1, 12); k > 0; k--) sb.append(CheckC09.TOKENS[r.below(CheckC09.TOKENS.length)]);
    }
    if (r.chance(1, 400)) sb.insert(0, Gen.string(r, r.range(100, 20_000), 1).replace('%', ' '));
    String f = sb.toString();
    RuntimeException t = null;
    try {
      FastPrintf.compile(f);
    } catch (PrintfSyntaxException | PrintfException x) {
      t = x;
    } catch (Throwable x) {
      // decided elsewhere
      return;
    }
    rep.judged();
    if (t == null) {
      rep.count("formats accepted");
      return;
    }
    String m = message(t);
    String problem = m == null ? "no readable message" : t instanceof PrintfSyntaxException ? report((PrintfSyntaxException) t, f, m) : null;
    rep.distinct(Rng.hash(f));
    if (problem != null) fail("syntax", i, problem, "format " + Report.quote(f) + "\nactual: " + t.getClass() + " " + Report.quote("" + m));
  }

  private String report(PrintfSyntaxException s, String f, String m) {
    rep.count("syntax reports");
    int at = s.getIndex();
    String nl = System.lineSeparator();
    String d = s.getDescription();
    if (at >= 0 && at < f.length()) rep.count("markers judged");
    if (d == null || d.isEmpty()) return "no description";
    if (!m.contains(d)) return "the message lacks the description";
    if (!f.equals(s.getPattern()) || !m.contains(f)) return "the message lacks the format";
    if (at >= 0 && !m.contains(Integer.toString(at))) return "the message lacks the index";
    if (at >= 0 && at < f.length() && !m.endsWith(nl + f + nl + Ref.rep(' ', at) + "^")) return "the marker does not stand under the index";
    if ((at < 0 || at >= f.length()) && !m.endsWith(f)) return "something follows the format";
    return null;
  }

  /** Reports made by the caller read like the library's own. */
  private void made(Rng r, long i) {
    String f = r.chance(1, 5) ? "" : formats.valid(r);
    String d = Gen.string(r, r.range(1, 30), 1);
    int at = r.chance(1, 4) ? -1 : r.chance(1, 4) ? 0 : r.below(f.length() + 3);
    Throwable cause = r.bool() ? null : new IllegalStateException("cause");
    PrintfSyntaxException s;
    try {
      s = cause == null && r.bool() ? new PrintfSyntaxException(d, f, at) : new PrintfSyntaxException(d, f, at, cause);
    } catch (Throwable t) {
      fail("made", i, "a report cannot be made", t.toString());
      return;
    }
    rep.judged();
    rep.distinct(Rng.mix(Rng.hash(f), at));
    String m = message(s);
    String problem = m == null ? "no readable message" : s.getIndex() != at || s.getCause() != cause || !d.equals(s.getDescription()) ? "parts changed" : report(s, f, m);
    if (problem != null) fail("made", i, problem, "format " + Report.quote(f) + " index " + at + "\nactual: " + Report.quote("" + m));
  }

  /** A value without text form. */
  private static final class Mute {
    final Throwable t;

    Mute(Throwable t) {
      this.t = t;
    }

    @Override
    public String toString() {
      Trap.<RuntimeException>sneaky(t);
      return null;
    }
  }

  /** Exceptions made from a template and values. */
  private void templates(Rng r, long i) {
    StringBuilder t = new StringBuilder();
    int holes = 0;
    StringBuilder want = new StringBuilder();
    Object[] v = new Object[r.below(6)];
    String[] shown = new String[v.length];
    boolean mute = false;
    for (int k = 0; k < v.length; k++) {
      if (r.chance(1, 12)) {
        v[k] = new Mute(r.bool() ? new IllegalStateException("mute") : new NullPointerException());
        mute = true;
        continue;
      }
      v[k] = odd(r);
      if (v[k] != null && v[k].getClass().isArray()) v[k] = "array";
      shown[k] = String.valueOf(v[k]);
    }
    for (int k = r.below(7); k > 0; k--) {
      String piece = r.bool() ? "%s" : r.pick(new String[] {"a", "%d", "%", "%%", " s", "value ", "\n", "[", "%S"});
      // no placeholder by accident
      if (piece.startsWith("s") && t.length() > 0 && t.charAt(t.length() - 1) == '%') continue;
      t.append(piece);
      if (piece.equals("%s")) {
        want.append(holes < v.length ? shown[holes] : "%s");
        holes++;
      } else {
        want.append(piece);
      }
    }
    if (holes < v.length) {
      want.append(" [");
      for (int k = holes; k < v.length; k++) want.append(k == holes ? "" : ", ").append(shown[k]);
      want.append(']');
    }
    String template = t.toString();
    Lib.Out o = Lib.call(() -> new PrintfException(template, v.clone()).getMessage());
    rep.judged();
    rep.count(mute ? "messages about values without text form" : "messages from templates");
    rep.distinct(Rng.mix(Rng.hash(template), Rng.hash(want)));
    if (o.error != null || !mute && !want.toString().equals(o.text)) {
      fail("templates", i, "message of an exception", Report.quote(template) + " with " + v.length + " values\nexpected: " + Report.quote(want) + "\nactual:   " + o);
    }
  }

  /** The refusal of a value does not depend on its text form. */
  private void unspeakable(Rng r, long i) {
    Spec s = gen.spec(r, r.pick("diuoxXfFeEgGaActT"));
    if (s.width > 300) s.width = 30;
    if (s.prec > 300) s.prec = 30;
    List<Arg> args = new ArrayList<>();
    int at = r.below(3);
    Object m = new Mute(r.pick(new Throwable[] {new IllegalStateException("mute"), new UnsupportedOperationException(), new java.io.IOException("mute"), new Exception(), new NullPointerException()}));
    if (at == 0) {
      s.width = Spec.STAR;
      args.add(Arg.of(m));
    } else if (at == 1) {
      s.prec = Spec.STAR;
      args.add(Arg.of(m));
    }
    args.add(Arg.of(at == 2 ? m : (Object) 1));
    String fmt = s.text();
    Object[] v = Lib.values(args);
    Lib.Out o = Lib.call(() -> FastPrintf.compile(fmt).format(v));
    rep.judged();
    rep.count("refusals of values without text form");
    rep.distinct(Rng.mix(Rng.hash(fmt), at));
    if (!(o.error instanceof PrintfException) || message(o.error) == null) {
      fail("unspeakable", i, "refusal of a value whose text form fails", Report.quote(fmt) + "\nactual: " + o);
    }
  }

  private static String message(Throwable t) {
    try {
      String a = t.getMessage();
      String b = t.getMessage();
      String c = t.toString();
      return a == null || a.isEmpty() || !a.equals(b) || !c.contains(a) ? null : a;
    } catch (Throwable x) {
      return null;
    }
  }

  private Object odd(Rng r) {
    switch (r.below(9)) {
      case 0:
        return null;
      case 1:
        return gen.anyText(r, 20);
      case 2:
        return gen.array(r);
      case 3:
        return new Gen.Named(gen.string(r, 30));
      case 4:
        return gen.temporal(r);
      case 5:
        return gen.number(r);
      case 6:
        return r.pick(new Object[] {"%s", "%d", "%", "{}", "", " ", "%s%s%s", "$1", "\\"});
      case 7:
        return new Object[] {"%s", null};
      default:
        return gen.floating(r);
    }
  }

  /** Whatever cannot be converted, the refusal can be read. */
  private void refusals(Rng r, long i) {
    String fmt;
    List<Arg> args = new ArrayList<>();
    Spec s = gen.spec(r, r.pick(Grammar.CONV));
    if (s.width > 300) s.width = 30;
    if (s.prec > 300) s.prec = 30;
    if (r.chance(1, 4)) {
      s.width = Spec.STAR;
      args.add(Arg.of(odd(r)));
    }
    if (r.chance(1, 4)) {
      s.prec = Spec.STAR;
      args.add(Arg.of(odd(r)));
    }
    Object v = odd(r);
    args.add(new Arg(v, Arg.boxable(v) && r.bool()));
    if (r.chance(1, 10)) args.remove(args.size() - 1);
    fmt = s.text();
    Lib.Out o = Lib.format(fmt, args);
    rep.judged();
    if (o.error == null) {
      rep.count("accepted");
      return;
    }
    rep.count("refusals read");
    rep.distinct(Rng.mix(Rng.hash(fmt), args.isEmpty() ? 0 : args.get(args.size() - 1).hash()));
    if (message(o.error) == null) fail("refusals", i, "no readable message", Lib.show(fmt, args) + "\nactual: " + o);
  }
}
