package fpv;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.traits.FormatTraits;
import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.Method;
import java.lang.reflect.Proxy;
import java.util.ArrayList;
import java.util.Iterator;
import java.util.List;
import java.util.NoSuchElementException;

/** Argument lists and argument handlers that are not the library's own. */
public final class CheckC23 extends Check {
  @Override
  public String level() {
    return "exploration";
  }

  @Override
  public String rule() {
    return "random directive programs whose argument list, argument handlers or both are recording"
        + " implementations from outside; what is asked of them, in which order, and the output are judged,"
        + " also when one of them fails; one evaluation = one format call; distinct by format and arguments";
  }

  @Override
  public void run() throws Throwable {
    cases("recorded", 250_000, this::recorded);
    cases("failing", 250_000, this::failing);
  }

  private static final class Asked {
    final int arg;
    final String what;

    Asked(int arg, String what) {
      this.arg = arg;
      this.what = what;
    }

    @Override
    public String toString() {
      return what + "@" + arg;
    }
  }

  /** What was observed during one call. */
  private static final class Log {
    final List<Asked> asked = new ArrayList<>();
    int iterators;
    int taken;
    int removed;
    boolean other;
    /** The handlers are foreign. */
    boolean handlers;
    /** Fails instead of answering. */
    int failAt = -1;
    boolean failInList;
    RuntimeException failure;
    int afterFailure;
    boolean failed;
  }

  private static Object pass(Object target, Method m, Object[] a) throws Throwable {
    try {
      return m.invoke(target, a);
    } catch (InvocationTargetException e) {
      throw e.getCause();
    }
  }

  private static FormatTraits handler(Log log, int k, FormatTraits inner) {
    return (FormatTraits)
        Proxy.newProxyInstance(
            CheckC23.class.getClassLoader(),
            new Class<?>[] {FormatTraits.class},
            (p, m, a) -> {
              String n = m.getName();
              if (m.getDeclaringClass() == Object.class) {
                if (n.equals("equals")) return p == a[0];
                if (n.equals("hashCode")) return k;
                return "handler " + k;
              }
              if (log.failed) log.afterFailure++;
              log.asked.add(new Asked(k, n));
              if (!log.failInList && log.failAt == k && log.failure != null && !n.equals("isNull")) {
                log.failed = true;
                throw log.failure;
              }
              return pass(inner, m, a);
            });
  }

  private static Args list(Log log, Args inner, List<FormatTraits> items) {
    return (Args)
        Proxy.newProxyInstance(
            CheckC23.class.getClassLoader(),
            new Class<?>[] {Args.class},
            (p, m, a) -> {
              if (m.getName().equals("iterator")) {
                log.iterators++;
                return new Iterator<FormatTraits>() {
                  int n;

                  @Override
                  public boolean hasNext() {
                    return n < items.size();
                  }

                  @Override
                  public FormatTraits next() {
                    if (log.failed) log.afterFailure++;
                    if (n >= items.size()) throw new NoSuchElementException();
                    if (log.failInList && n == log.failAt) {
                      log.failed = true;
                      throw log.failure;
                    }
                    log.taken++;
                    return items.get(n++);
                  }

                  @Override
                  public void remove() {
                    log.removed++;
                  }
                };
              }
              if (m.getDeclaringClass() != Object.class) log.other = true;
              return pass(inner, m, a);
            });
  }

  /** What a directive may ask of an argument. */
  private static boolean allowed(String role, String what) {
    switch (what) {
      case "isNull":
      case "ref":
      case "asObject":
        return true;
      default:
    }
    switch (role) {
      case "field":
        return what.equals("asInt");
      case "d":
      case "i":
      case "u":
      case "o":
      case "x":
        return what.equals("asIntForm");
      case "f":
      case "e":
      case "g":
      case "a":
        return what.equals("asFloatForm");
      case "s":
        return what.equals("asSeq") || what.equals("asString");
      case "c":
        return what.equals("asChar") || what.equals("asInt");
      case "t":
        return what.equals("asTemporalAccessor");
      default:
        return false;
    }
  }

  private static List<String> roles(List<Object> items) {
    List<String> out = new ArrayList<>();
    for (Object o : items) {
      if (!(o instanceof Spec)) continue;
      Spec s = (Spec) o;
      if (s.width == Spec.STAR) out.add("field");
      if (s.prec == Spec.STAR) out.add("field");
      out.add(String.valueOf(s.lower()));
    }
    return out;
  }

  private static FormatTraits own(Arg a) {
    return Lib.add(Args.create(), a).iterator().next();
  }

  private Program program(Rng r) {
    Program p = Program.random(gen, r, 6, 30, "diuoxXfFeEgGaAcsSsStTdxspn");
    if (p.args.isEmpty()) {
      p.items.add(new Spec('d'));
      p.args.add(Arg.of(5));
      p.fmt = Program.format(p.items);
    }
    return p;
  }

  private FastPrintf variant(Rng r, String fmt) {
    FastPrintf f = FastPrintf.compile(fmt);
    if (r.chance(1, 3)) f = f.enableThreadLocalCache();
    if (r.chance(1, 4)) f = f.setStringBuilderInitialCapacity(r.range(1, 100));
    return f;
  }

  private Args build(Rng r, Log log, List<Arg> args) {
    int mode = r.below(4);
    log.handlers = mode != 0;
    List<FormatTraits> items = new ArrayList<>();
    Args inner = Args.create();
    for (int k = 0; k < args.size(); k++) {
      FormatTraits t = own(args.get(k));
      if (mode != 0) t = handler(log, k, t);
      items.add(t);
      inner = inner.put(t);
    }
    // 0: foreign list, own handlers; 1, 2: own list, foreign handlers; 3: both foreign
    if (mode == 1) return inner;
    if (mode == 2) return Args.of(items.toArray());
    return list(log, inner, items);
  }

  private Lib.Out call(Rng r, FastPrintf f, Args a) {
    int how = r.below(5);
    if (how == 0) return Lib.call(() -> f.format(new StringBuilder(), a).toString());
    if (how == 1) return Lib.call(() -> f.format(new java.io.StringWriter(), a).toString());
    return Lib.call(() -> f.format(a));
  }

  private void recorded(Rng r, long i) {
    Program p = program(r);
    Program.Expect e;
    List<Arg> args = new ArrayList<>(p.args);
    if (r.chance(1, 4)) for (int k = r.range(1, 3); k > 0; k--) args.add(Arg.of("surplus"));
    else if (r.chance(1, 8)) args = args.subList(0, r.below(args.size()));
    try {
      e = Program.eval(p.items, args);
    } catch (Ref.Unspecified x) {
      return;
    }
    List<String> roles = roles(p.items);
    FastPrintf f = variant(r, p.fmt);
    Log log = new Log();
    Args a = build(r, log, args);
    int calls = r.range(1, 2);
    for (int c = 0; c < calls; c++) {
      log.asked.clear();
      log.iterators = log.taken = 0;
      Lib.Out o = call(r, f, a);
      rep.judged();
      String problem = null;
      if (e.refused) {
        if (o.error == null) problem = "accepted although not convertible";
      } else if (o.error != null) problem = "unexpected exception";
      else if (!o.text.equals(e.text)) problem = "wrong text";
      if (problem == null) problem = order(log, roles, e);
      rep.count("questions put to handlers", log.asked.size());
      rep.count("elements taken from lists", log.taken);
      if (problem != null) {
        fail("recorded", i, problem, Lib.show(p.fmt, args) + "\nexpected: " + (e.refused ? "refused" : Report.quote(e.text)) + "\nactual:   " + o + "\nasked: " + log.asked + "\ntaken from the list: " + log.taken + " of " + args.size() + ", iterators " + log.iterators);
        return;
      }
    }
    rep.distinct(p.hash());
    if (rep.wantsSamples()) rep.sample(Report.quote(p.fmt) + " asked " + log.asked);
  }

  private static String order(Log log, List<String> roles, Program.Expect e) {
    if (log.removed > 0) return "an element was removed from the list";
    if (log.iterators > 1) return "the list was gone through more than once";
    if (log.iterators == 1 && !log.other && !e.refused && log.taken != e.consumed) return "took " + log.taken + " elements instead of " + e.consumed;
    if (log.taken > roles.size()) return "took elements beyond the last directive";
    int last = -1;
    int values = 0;
    int[] answers = new int[roles.size()];
    for (Asked q : log.asked) {
      if (q.arg >= roles.size()) return "asked a surplus argument: " + q;
      if (!allowed(roles.get(q.arg), q.what)) return "asked " + q + " for " + roles.get(q.arg);
      if (q.arg < last) return "asked out of order: " + q + " after argument " + last;
      boolean value = !q.what.equals("isNull") && !q.what.equals("ref") && !q.what.equals("asObject");
      if (q.arg > last) values = 0;
      if (value && ++values > 1) return "asked twice: " + q;
      if (value) answers[q.arg]++;
      last = q.arg;
    }
    if (log.handlers && !e.refused) {
      for (int k = 0; k < e.consumed; k++) {
        if (answers[k] == 0 && !roles.get(k).equals("n") && !roles.get(k).equals("p")) return "not asked: argument " + k + " for " + roles.get(k);
      }
    }
    return null;
  }

  /** A handler or the list fails: the failure arrives as it is, and nothing more is asked. */
  private void failing(Rng r, long i) {
    Program p = program(r);
    Program.Expect e;
    try {
      e = Program.eval(p.items, p.args);
    } catch (Ref.Unspecified x) {
      return;
    }
    if (e.refused) return;
    List<String> roles = roles(p.items);
    Log log = new Log();
    log.failAt = r.below(p.args.size());
    log.failInList = r.chance(1, 3);
    log.failure = r.pick(new RuntimeException[] {new IllegalStateException("injected"), new UnsupportedOperationException("injected"), new ArithmeticException("injected"), new NoSuchElementException("injected"), new java.time.DateTimeException("injected"), new NumberFormatException("injected"), new ClassCastException("injected"), new NullPointerException("injected"), new IndexOutOfBoundsException("injected"), new io.fastprintf.PrintfException("injected"), new java.io.UncheckedIOException(new java.io.IOException("injected"))});
    FastPrintf f = variant(r, p.fmt);
    Args a = build(r, log, p.args);
    StringBuilder got = new StringBuilder();
    int how = r.below(3);
    Lib.Out o =
        how == 0
            ? Lib.call(() -> f.format(a))
            : how == 1
                ? Lib.call(() -> f.format(got, a).toString())
                : Lib.call(
                    () -> {
                      f.format(
                          new java.io.Writer() {
                            @Override
                            public void write(char[] c, int x, int n) {
                              got.append(c, x, n);
                            }

                            @Override
                            public void flush() {}

                            @Override
                            public void close() {}
                          },
                          a);
                      return got.toString();
                    });
    rep.judged();
    String problem = null;
    if (!log.failed) {
      rep.count("failures not reached");
      if (o.error != null || !o.text.equals(e.text)) problem = "wrong result";
    } else {
      rep.count("failures injected");
      if (o.error != log.failure) problem = "the failure did not arrive unchanged";
      else if (log.afterFailure > 0) problem = "more was asked after the failure";
      else if (!e.text.startsWith(got.toString())) problem = "what was written is not a prefix";
    }
    if (problem == null) {
      // the same formatter still works
      Lib.Out again = Lib.call(() -> f.format(Lib.args(p.args)));
      if (again.error != null || !again.text.equals(e.text)) problem = "wrong result afterwards: " + again;
    }
    rep.distinct(Rng.mix(p.hash(), log.failAt));
    if (problem != null) {
      fail("failing", i, problem, Lib.show(p.fmt, p.args) + "\nfailing argument " + log.failAt + (log.failInList ? " (list)" : " (handler)") + " role " + roles.get(log.failAt) + " with " + log.failure + "\nactual: " + o + "\nasked: " + log.asked + "\nwritten: " + Report.quote(got));
    }
  }
}
