package fpv;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Calendar;
import java.util.Collections;
import java.util.Date;
import java.util.Iterator;
import java.util.LinkedHashSet;
import java.util.List;

/** Argument lists against a plain list. */
public final class CheckC17 extends Check {
  private static final String CONV = "diuoxXfFeEgGaAsSctTn";
  private static final CheckC20 KINDS = new CheckC20();

  @Override
  public String level() {
    return "exploration";
  }

  @Override
  public String rule() {
    return "random histories of additions (primitive, typed, generic, bulk), reads, attempted modifications"
        + " and format calls; one evaluation = one list or text compared; distinct by the values added";
  }

  @Override
  public void run() throws Throwable {
    KINDS.gen = gen;
    cases("histories", 80_000, (r, i) -> new History(r, i).run());
    cases("ways", 300_000, (r, i) -> ways(r, i));
    cases("pointers", 120_000, (r, i) -> pointers(r, i));
    cases("bulk", 120_000, (r, i) -> bulk(r, i));
  }

  private Object value(Rng r) {
    if (r.chance(1, 12)) {
      // boxes of their own
      switch (r.below(4)) {
        case 0:
          return new Integer(r.range(-200, 200));
        case 1:
          return new Long(r.range(-200, 200));
        case 2:
          return new String("abc");
        default:
          return new Double(Double.longBitsToDouble(0x7ff8000000000000L | r.bits(20)));
      }
    }
    return KINDS.value(r, r.below(CheckC20.KINDS));
  }

  /** Content of values that could be changed behind our back. */
  private static String state(Object v) {
    if (v == null) return "";
    if (v instanceof StringBuilder || v instanceof StringBuffer) return v.toString();
    if (v instanceof java.nio.CharBuffer) {
      java.nio.CharBuffer b = (java.nio.CharBuffer) v;
      return b.position() + "," + b.limit() + "," + b;
    }
    if (v instanceof Calendar) return ((Calendar) v).getTimeInMillis() + ((Calendar) v).getTimeZone().getID();
    if (v instanceof Date) return "" + ((Date) v).getTime();
    if (v.getClass().isArray()) return Arg.describe(v);
    if (v instanceof java.util.concurrent.atomic.AtomicLong) return v.toString();
    if (v instanceof java.util.concurrent.atomic.AtomicInteger) return v.toString();
    return "";
  }

  private static boolean same(Object a, Arg want) {
    if (!want.prim) return a == want.v;
    if (a == null || a.getClass() != want.v.getClass()) return false;
    if (a instanceof Double) {
      return Double.doubleToRawLongBits((Double) a) == Double.doubleToRawLongBits((Double) want.v);
    }
    if (a instanceof Float) return Float.floatToRawIntBits((Float) a) == Float.floatToRawIntBits((Float) want.v);
    return a.equals(want.v);
  }

  /** Null if the list is exactly the model. */
  private static String compare(List<Object> got, List<Arg> model) {
    if (got.size() != model.size()) return "size " + got.size() + " instead of " + model.size();
    int k = 0;
    for (Object o : got) {
      if (!same(o, model.get(k))) return "value " + k + " is " + Arg.describe(o) + " instead of " + model.get(k).describe();
      if (!same(got.get(k), model.get(k))) return "value " + k + " by index";
      k++;
    }
    return null;
  }

  private static Args add(Rng r, Args a, Arg g) {
    if (g.prim) return Lib.add(a, g);
    return r.bool() ? a.put(g.v) : Lib.addTyped(a, g.v);
  }

  private final class History {
    final Rng r;
    final long i;
    final List<Arg> model = new ArrayList<>();
    final List<String> states = new ArrayList<>();
    final List<List<Object>> reads = new ArrayList<>();
    final List<Integer> readSizes = new ArrayList<>();
    final StringBuilder log = new StringBuilder();
    Args args;
    boolean failed;

    History(Rng r, long i) {
      this.r = r;
      this.i = i;
    }

    void bad(String what, String detail) {
      failed = true;
      StringBuilder sb = new StringBuilder(detail).append("\nsteps: ").append(log);
      for (Arg a : model) sb.append("\n  value: ").append(a.describe());
      fail("histories", i, what, sb.toString());
    }

    void run() {
      try {
        steps();
      } catch (Throwable t) {
        bad("unexpected exception", t + CheckC11.trace(t));
      }
    }

    private void remember(Arg g) {
      model.add(g);
      states.add(state(g.v));
    }

    private void steps() {
      switch (r.below(4)) {
        case 0:
          args = Args.create();
          break;
        case 1:
          args = Args.createWithExpectedSize(r.below(12));
          break;
        default:
          {
            int n = r.chance(1, 10) ? gen.dict.count(r, 300) : r.below(8);
            Object[] o = new Object[n];
            for (int k = 0; k < n; k++) {
              o[k] = value(r);
              remember(Arg.of(o[k]));
            }
            args = r.bool() ? Args.of(o) : Args.of((Iterable<?>) Arrays.asList(o.clone()));
            // the source belongs to the caller
            Arrays.fill(o, "changed");
          }
      }
      int steps = r.range(3, 30);
      for (int k = 0; k < steps && !failed; k++) {
        switch (r.below(9)) {
          case 8:
            shown();
            break;
          case 0:
          case 1:
          case 2:
            {
              Object v = value(r);
              Arg g = new Arg(v, Arg.boxable(v) && r.chance(1, 3));
              log.append(" add");
              Args back = add(r, args, g);
              if (back != args) {
                bad("adding returned another list", "");
                return;
              }
              remember(g);
              break;
            }
          case 3:
            {
              log.append(" read");
              List<Object> l = args.values();
              rep.judged();
              String p = compare(l, model);
              if (p != null) {
                bad("listed values", p);
                return;
              }
              reads.add(l);
              readSizes.add(model.size());
              break;
            }
          case 4:
            if (!reads.isEmpty()) tamper(reads.get(r.below(reads.size())));
            break;
          case 5:
          case 6:
            format();
            break;
          default:
            {
              log.append(" iterate");
              int n = 0;
              for (Object t : args) if (t != null) n++;
              if (n != model.size()) {
                bad("iteration", n + " elements instead of " + model.size());
                return;
              }
            }
        }
      }
      if (failed) return;
      rep.judged();
      String p = compare(args.values(), model);
      for (int k = 0; k < reads.size() && p == null; k++) p = compare(reads.get(k), model.subList(0, readSizes.get(k)));
      for (int k = 0; k < model.size() && p == null; k++) {
        if (!state(model.get(k).v).equals(states.get(k))) p = "value " + k + " was modified: " + model.get(k).describe();
      }
      if (p != null) {
        bad("at the end", p);
        return;
      }
      long h = 0;
      for (Arg a : model) h = Rng.mix(h, a.v == null ? 3 : Rng.hash(a.v.getClass().getName() + state(a.v) + (a.v instanceof Number ? a.v : "")));
      rep.distinct(Rng.mix(h, Rng.hash(log)));
      if (rep.wantsSamples()) rep.sample(model.size() + " values, steps" + log);
    }

    private void tamper(List<Object> l) {
      log.append(" tamper");
      List<Object> before = new ArrayList<>(l);
      int how = r.below(9);
      boolean threw = false;
      try {
        switch (how) {
          case 0:
            l.add("x");
            break;
          case 1:
            l.add(0, "x");
            break;
          case 2:
            l.addAll(Arrays.asList("x", "y"));
            break;
          case 3:
            if (!l.isEmpty()) l.set(r.below(l.size()), "x");
            break;
          case 4:
            if (!l.isEmpty()) l.remove(0);
            break;
          case 5:
            l.clear();
            break;
          case 6:
            if (!l.isEmpty()) {
              Iterator<Object> it = l.iterator();
              it.next();
              it.remove();
            }
            break;
          case 7:
            if (!l.isEmpty()) {
              java.util.ListIterator<Object> it = l.listIterator();
              it.next();
              it.set("x");
            }
            break;
          default:
            if (l.size() > 1) l.subList(0, 1).clear();
        }
      } catch (RuntimeException e) {
        threw = true;
      }
      rep.judged();
      rep.count("attempted modifications");
      if (how <= 2 && !threw) bad("the list of values accepted an addition", "way " + how);
      boolean eq = before.size() == l.size();
      for (int k = 0; eq && k < before.size(); k++) eq = before.get(k) == l.get(k);
      if (!eq) bad("the list of values was modified", "way " + how);
      String p = compare(args.values(), model);
      if (p != null) bad("modifying the list of values reached the arguments", p);
    }

    /** The list's own text form lists what its values print as text. */
    private void shown() {
      log.append(" show");
      List<Object> items = new ArrayList<>();
      for (int k = 0; k < model.size(); k++) {
        items.add(k == 0 ? "[" : ", ");
        items.add(new Spec('s'));
      }
      items.add(model.isEmpty() ? "[]" : "]");
      Program.Expect e;
      try {
        e = Program.eval(items, model);
      } catch (Ref.Unspecified x) {
        return;
      }
      if (e.refused) return;
      Lib.Out o = Lib.call(() -> args.toString());
      rep.judged();
      rep.count("lists shown");
      if (!e.text.equals(o.text)) bad("text form of the list", "expected " + Report.quote(e.text) + "\nactual " + o);
    }

    private void format() {
      // a format whose directives fit the values, at any prefix
      log.append(" format");
      List<Object> items = new ArrayList<>();
      int n = model.isEmpty() ? 0 : r.below(model.size() + 1);
      if (r.bool()) n = model.size();
      for (int k = 0; k < n; k++) {
        Spec s = gen.spec(r, r.chance(2, 3) ? r.pick("sSn") : r.pick(CONV));
        if (s.width > 100) s.width = 10;
        if (s.prec > 100) s.prec = 10;
        items.add(s);
        items.add("|");
      }
      Program.Expect e;
      try {
        e = Program.eval(items, model);
      } catch (Ref.Unspecified x) {
        return;
      }
      String fmt = Program.format(items);
      FastPrintf f = FastPrintf.compile(fmt);
      if (r.bool()) f = f.enableThreadLocalCache();
      int times = r.chance(1, 3) ? r.range(2, 4) : 1;
      for (int t = 0; t < times; t++) {
        FastPrintf g = f;
        Lib.Out o = Lib.call(() -> g.format(args));
        rep.judged();
        rep.count(e.refused ? "failing calls" : "texts compared");
        if (e.refused ? !o.refused() : !e.text.equals(o.text)) {
          bad("call " + t + " on the list", Lib.show(fmt, model) + "\nexpected " + (e.refused ? "refusal" : Report.quote(e.text)) + "\nactual " + o);
          return;
        }
      }
    }
  }

  /** All ways to hand over one value give one result for every conversion. */
  private void ways(Rng r, long i) {
    Object v = value(r);
    Spec s = gen.spec(r, r.pick(CONV));
    if (s.width > 300) s.width = 30;
    if (s.prec > 300) s.prec = 30;
    if (s.lower() == 't' && r.chance(1, 3)) s.pattern = "uuuu-MM-dd";
    String fmt = s.text();
    FastPrintf f = FastPrintf.compile(fmt);
    List<Lib.Out> outs = new ArrayList<>();
    List<String> names = new ArrayList<>();
    names.add("generic");
    outs.add(Lib.call(() -> f.format(Args.create().put(v))));
    names.add("typed");
    outs.add(Lib.call(() -> f.format(Lib.addTyped(Args.create(), v))));
    names.add("varargs");
    outs.add(Lib.call(() -> f.format(Args.of(new Object[] {v}))));
    names.add("iterable");
    outs.add(Lib.call(() -> f.format(Args.of((Iterable<?>) Collections.singletonList(v)))));
    names.add("direct");
    outs.add(Lib.call(() -> f.format(new Object[] {v})));
    if (Arg.boxable(v)) {
      names.add("primitive");
      outs.add(Lib.call(() -> f.format(Lib.add(Args.create(), new Arg(v, true)))));
    }
    if (v instanceof CharSequence) {
      names.add("sequence");
      outs.add(Lib.call(() -> f.format(Args.create().putCharSequence((CharSequence) v))));
    }
    if (v == null) {
      // every typed method takes null for null
      names.add("null boolean");
      outs.add(Lib.call(() -> f.format(Args.create().putBooleanOrNull(null))));
      names.add("null char");
      outs.add(Lib.call(() -> f.format(Args.create().putCharOrNull(null))));
      names.add("null byte");
      outs.add(Lib.call(() -> f.format(Args.create().putByteOrNull(null))));
      names.add("null short");
      outs.add(Lib.call(() -> f.format(Args.create().putShortOrNull(null))));
      names.add("null int");
      outs.add(Lib.call(() -> f.format(Args.create().putIntOrNull(null))));
      names.add("null long");
      outs.add(Lib.call(() -> f.format(Args.create().putLongOrNull(null))));
      names.add("null float");
      outs.add(Lib.call(() -> f.format(Args.create().putFloatOrNull(null))));
      names.add("null double");
      outs.add(Lib.call(() -> f.format(Args.create().putDoubleOrNull(null))));
      names.add("null string");
      outs.add(Lib.call(() -> f.format(Args.create().putString(null))));
      names.add("null sequence");
      outs.add(Lib.call(() -> f.format(Args.create().putCharSequence(null))));
      names.add("null integer");
      outs.add(Lib.call(() -> f.format(Args.create().putBigInteger(null))));
      names.add("null decimal");
      outs.add(Lib.call(() -> f.format(Args.create().putBigDecimal(null))));
      names.add("null date-time");
      outs.add(Lib.call(() -> f.format(Args.create().putDateTime(null))));
      names.add("null array");
      outs.add(Lib.call(() -> f.format(Args.of((Object[]) null))));
    }
    Lib.Out first = outs.get(0);
    for (int k = 1; k < outs.size(); k++) {
      rep.judged();
      Lib.Out o = outs.get(k);
      boolean eq =
          first.error == null
              ? first.text.equals(o.text)
              : o.error != null && o.error.getClass() == first.error.getClass();
      if (!eq) {
        fail(
            "ways",
            i,
            "the way a value is added matters",
            Lib.show(fmt, Lib.list(Arg.of(v))) + "\n" + names.get(0) + ": " + first + "\n" + names.get(k) + ": " + o);
        return;
      }
    }
    rep.count("values handed over in all ways");
    if (first.error == null) rep.distinct(Rng.mix(Rng.hash(fmt), Rng.mix(Rng.hash(first.text), v == null ? 0 : Rng.hash(v.getClass().getName()))));
  }

  private void pointers(Rng r, long i) {
    int n = r.range(1, 5);
    List<Object> items = new ArrayList<>();
    List<Arg> model = new ArrayList<>();
    Args args = Args.create();
    for (int k = 0; k < n; k++) {
      Spec s = new Spec('p');
      s.minus = r.bool();
      s.width = r.chance(1, 3) ? r.range(1, 60) : Spec.NONE;
      if (k > 0) items.add(" ");
      items.add(s);
      Object v = value(r);
      if (v != null && v.getClass().isAnonymousClass() && r.bool()) v = new Object();
      Arg g = new Arg(v, Arg.boxable(v) && r.chance(1, 5));
      model.add(g);
      args = add(r, args, g);
    }
    Program.Expect e = Program.eval(items, model);
    String fmt = Program.format(items);
    for (int t = 0; t < 2; t++) {
      Args a = args;
      Lib.Out o = Lib.call(() -> FastPrintf.compile(fmt).format(a));
      rep.judged();
      rep.count(e.refused ? "primitive pointers refused" : "pointers printed", n);
      if (e.refused ? !o.refused() : !e.text.equals(o.text)) {
        fail("pointers", i, "pointer conversion", Lib.show(fmt, model) + "\nexpected " + (e.refused ? "refusal" : Report.quote(e.text)) + "\nactual " + o);
        return;
      }
    }
    if (!e.refused) rep.distinct(Rng.hash(e.text));
  }

  /** Null if the text form of the list is that of the model and its elements can be gone through. */
  private String shows(Args a, List<Arg> model) {
    int n = 0;
    for (Object t : a) if (t != null) n++;
    if (n != model.size()) return n + " elements gone through instead of " + model.size();
    StringBuilder want = new StringBuilder("[");
    try {
      String gap = "";
      for (Arg g : model) {
        want.append(gap).append(Ref.render(new Spec('s'), g.v));
        gap = ", ";
      }
    } catch (Ref.Refused | Ref.Unspecified x) {
      return null;
    }
    want.append(']');
    Lib.Out o = Lib.call(a::toString);
    rep.judged();
    rep.count("lists shown");
    return want.toString().equals(o.text) ? null : "shown as " + o + " instead of " + Report.quote(want.toString());
  }

  /** Bulk factories take any iterable, once, in its order. */
  private void bulk(Rng r, long i) {
    int n = r.chance(1, 20) ? r.range(100, 3000) : r.below(12);
    List<Arg> model = new ArrayList<>();
    for (int k = 0; k < n; k++) model.add(Arg.of(n > 50 ? (Object) ("v" + k) : value(r)));
    Object[] o = Lib.values(model);
    int[] iterators = new int[1];
    Args a;
    int how = r.below(6);
    try {
      switch (how) {
        case 0:
          a = Args.of(o);
          break;
        case 1:
          a = Args.of((Iterable<?>) new ArrayList<>(Arrays.asList(o)));
          break;
        case 2:
          {
            Iterable<Object> once =
                () -> {
                  if (iterators[0]++ > 0) throw new IllegalStateException("iterated twice");
                  return Arrays.asList(o).iterator();
                };
            a = Args.of(once);
            break;
          }
        case 3:
          {
            LinkedHashSet<Object> set = new LinkedHashSet<>();
            for (int k = 0; k < n; k++) set.add("v" + (k * 7 % 101));
            model = new ArrayList<>();
            for (Object x : set) model.add(Arg.of(x));
            a = Args.of(set);
            break;
          }
        case 4:
          {
            ArrayDeque<Object> q = new ArrayDeque<>();
            for (Object x : o) q.add(x == null ? "none" : x);
            model = new ArrayList<>();
            for (Object x : q) model.add(Arg.of(x));
            a = Args.of(q);
            break;
          }
        default:
          a = Args.createWithExpectedSize(r.below(n + 5));
          for (Arg g : model) a = add(r, a, g);
      }
    } catch (Throwable t) {
      fail("bulk", i, "factory failed", "way " + how + " of " + n + " values: " + t + CheckC11.trace(t));
      return;
    }
    rep.judged();
    String p = compare(a.values(), model);
    if (p == null && how < 2) {
      if (!Arrays.equals(o, Lib.values(model))) p = "the source was modified";
    }
    if (p == null && r.chance(1, 2)) p = shows(a, model);
    if (p != null) {
      fail("bulk", i, "bulk factory", "way " + how + " of " + n + " values: " + p);
      return;
    }
    long h = Rng.mix(how, n);
    for (Arg g : model) h = Rng.mix(h, g.v == null ? 0 : Rng.hash(g.v.getClass().getName() + state(g.v)));
    rep.distinct(h);
  }
}
