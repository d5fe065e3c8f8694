package fpv;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import java.io.IOException;
import java.util.ArrayList;
import java.util.List;

/** Histories of calls. */
public final class CheckC14 extends Check {
  @Override
  public String level() {
    return "exploration";
  }

  @Override
  public String rule() {
    return "random histories of 10..80 steps over a pool of formatter variants: calls, failing calls,"
        + " huge calls, re-configurations, nested calls from arguments and destinations; one evaluation ="
        + " one result compared; distinct by history (steps, formats, arguments). Also thousands of calls on"
        + " one formatter, hundreds of formatters with look-alike formats alive together, and runs of calls"
        + " with arguments that are easily taken for each other or whose text has changed since";
  }

  @Override
  public void run() throws Throwable {
    cases("histories", 30_000, (r, i) -> new History(r, i).run());
    cases("long use", 160, this::longUse);
    cases("many formatters", 400, this::manyFormatters);
    cases("look-alikes", 12_000, this::lookAlikes);
    cases("changing", 6_000, this::changing);
    cases("capacities", 30_000, this::capacities);
  }

  private FastPrintf variant(Rng r, FastPrintf f) {
    switch (r.below(4)) {
      case 0:
        return f;
      case 1:
        return f.enableThreadLocalCache();
      case 2:
        return f.setStringBuilderInitialCapacity(r.range(1, 300)).enableThreadLocalCache();
      default:
        return f.setStringBuilderInitialCapacity(r.range(1, 300));
    }
  }

  private boolean same(String phase, long i, String what, FastPrintf f, String fmt, List<Arg> args, Args a, String want, int how) {
    Lib.Out o =
        Lib.call(
            () -> {
              if (how == 0) return f.format(new StringBuilder(), a == null ? Lib.args(args) : a).toString();
              if (how == 1) return f.format(new StringBuffer(), a == null ? Lib.args(args) : a).toString();
              return f.format(a == null ? Lib.args(args) : a);
            });
    rep.judged();
    if (o.error == null && o.text.equals(want)) return true;
    fail(phase, i, "wrong result", what + "\n" + Lib.show(fmt, args) + "\nexpected: " + Report.quote(want) + "\nactual:   " + o);
    return false;
  }

  /** Thousands of calls on one formatter, from one or more argument lists used again and again. */
  private void longUse(Rng r, long i) {
    Program p = Program.random(gen, r, 3, 12, "diuxXfeEgGacsSt");
    if (p.args.isEmpty()) p.items.add(new Spec('s'));
    String fmt = Program.format(p.items);
    FastPrintf f = variant(r, FastPrintf.compile(fmt));
    int lists = r.range(1, 6);
    List<List<Arg>> args = new ArrayList<>();
    List<Args> made = new ArrayList<>();
    List<String> want = new ArrayList<>();
    for (int k = 0; k < lists; k++) {
      List<Arg> l = Program.fill(gen, r, p.items, 12);
      args.add(l);
      made.add(Lib.args(l));
      want.add(Program.eval(p.items, l).text);
    }
    int n = gen.dict.count(r, 120_000);
    int mode = r.below(3);
    rep.count("calls in long use", n);
    rep.distinct(Rng.mix(Rng.hash(fmt), n));
    for (int c = 0; c < n; c++) {
      int k = r.below(lists);
      int how = mode == 2 ? r.below(4) : 3;
      if (!same("long use", i, "call number " + (c + 1), f, fmt, args.get(k), mode == 0 ? null : made.get(k), want.get(k), how)) return;
    }
  }

  /** One program under many capacities, with and without the cache, set in any order. */
  private void capacities(Rng r, long i) {
    Program p = Program.random(gen, r, 8, 20, r.chance(1, 4) ? "tT" : r.chance(1, 3) ? "dxfesS" : "diuxXfFeEgGacsStTn");
    Program.Expect e;
    try {
      e = Program.eval(p.items, p.args);
    } catch (Ref.Unspecified x) {
      return;
    }
    if (e.refused) return;
    FastPrintf plain = FastPrintf.compile(p.fmt);
    int len = p.fmt.length() + 1;
    FastPrintf f = plain;
    for (int k = 0; k < 6; k++) {
      int c;
      switch (r.below(6)) {
        case 0:
          c = 1;
          break;
        case 1:
          c = r.range(1, 8);
          break;
        case 2:
          c = r.range(1, len * 2);
          break;
        case 3:
          c = Math.max(1, e.text.length() + r.range(-2, 2));
          break;
        case 4:
          c = r.chance(1, 20) ? r.range(60_000, 140_000) : r.range(1, 400);
          break;
        default:
          c = (int) Math.max(1, Math.min(5000, gen.dict.count(r, 5000)));
      }
      if (r.chance(1, 3)) f = plain;
      f = f.setStringBuilderInitialCapacity(c);
      if (r.chance(1, 3)) f = f.enableThreadLocalCache();
      if (!same("capacities", i, "capacity " + c, f, p.fmt, p.args, null, e.text, r.below(6))) return;
      if (!same("capacities", i, "the original, after capacity " + c, plain, p.fmt, p.args, null, e.text, r.below(6))) return;
    }
    rep.count("capacities tried", 6);
    rep.distinct(Rng.mix(p.hash(), 77));
  }

  /** Strings that differ but share their hash code. */
  private static String twist(Rng r, String s) {
    int k = s.indexOf("Aa");
    int m = s.indexOf("BB");
    StringBuilder sb = new StringBuilder(s);
    for (int j = 0; j + 1 < s.length(); j++) {
      if (r.bool() && (s.startsWith("Aa", j) || s.startsWith("BB", j))) sb.replace(j, j + 2, s.startsWith("Aa", j) ? "BB" : "Aa");
    }
    return k < 0 && m < 0 ? s : sb.toString();
  }

  /** Many formatters alive together; formats differ in little, or have equal hash codes. */
  private void manyFormatters(Rng r, long i) {
    int n = r.chance(1, 10) ? gen.dict.count(r, 3000) : r.range(20, 200);
    Program p = Program.random(gen, r, 3, 12, "diuxXfeEgGacsSt");
    if (p.args.isEmpty()) p.items.add(new Spec('d'));
    List<List<Object>> items = new ArrayList<>();
    List<FastPrintf> fs = new ArrayList<>();
    List<String> fmts = new ArrayList<>();
    for (int k = 0; k < n; k++) {
      List<Object> it = new ArrayList<>(p.items);
      StringBuilder mark = new StringBuilder();
      for (int b = 0; b < 4; b++) mark.append(r.bool() ? "Aa" : "BB");
      switch (r.below(5)) {
        case 0:
          it.add(mark.toString());
          break;
        case 1:
          it.add(0, mark.toString());
          break;
        case 2:
          it.add(" " + k);
          break;
        case 3:
          {
            for (int j = 0; j < it.size(); j++) {
              if (!(it.get(j) instanceof Spec)) continue;
              Spec s = ((Spec) it.get(j)).clone();
              if (s.lower() == 't') continue;
              if (s.width != Spec.STAR) s.width = r.range(1, 30);
              if (s.width == 0) s.width = 1;
              s.minus = r.bool();
              it.set(j, s);
            }
            break;
          }
        default:
          {
            for (int j = 0; j < it.size(); j++) {
              if (!(it.get(j) instanceof Spec)) continue;
              Spec s = ((Spec) it.get(j)).clone();
              if ("xXeEsS".indexOf(s.conv) >= 0 && r.bool()) {
                s.conv = Character.isLowerCase(s.conv) ? Character.toUpperCase(s.conv) : Character.toLowerCase(s.conv);
              }
              it.set(j, s);
            }
          }
      }
      String fmt = Program.format(it);
      items.add(it);
      fmts.add(fmt);
      fs.add(variant(r, FastPrintf.compile(fmt)));
      rep.distinct(Rng.hash(fmt));
    }
    rep.count("formatters alive together", n);
    for (int c = 0; c < Math.min(3 * n, 600); c++) {
      int k = r.below(n);
      List<Arg> l = Program.fill(gen, r, items.get(k), 12);
      String want;
      try {
        Program.Expect e = Program.eval(items.get(k), l);
        if (e.refused) continue;
        want = e.text;
      } catch (Ref.Unspecified e) {
        continue;
      }
      if (!same("many formatters", i, n + " formatters", fs.get(k), fmts.get(k), l, null, want, r.below(4))) return;
    }
  }

  /** A value that resembles the given one. */
  private Object like(Rng r, Object v) {
    if (v instanceof Double) {
      double d = (Double) v;
      switch (r.below(7)) {
        case 0:
          return -d;
        case 1:
          return Math.nextUp(d);
        case 2:
          return (double) (float) d;
        case 3:
          return (float) d;
        case 4:
          {
            // the same hash code
            long b = Double.doubleToRawLongBits(d);
            long x = r.below(1 << 20);
            return Double.longBitsToDouble(b ^ x ^ x << 32);
          }
        case 5:
          return d == Math.rint(d) && Math.abs(d) < 1e15 ? (Object) (long) d : (Object) (d + 1);
        default:
          return Double.isNaN(d) || Double.isInfinite(d) ? (Object) d : new java.math.BigDecimal(d);
      }
    }
    if (v instanceof Long || v instanceof Integer || v instanceof Short || v instanceof Byte) {
      long l = ((Number) v).longValue();
      switch (r.below(8)) {
        case 0:
          return (int) l;
        case 1:
          return (short) l;
        case 2:
          return (byte) l;
        case 3:
          return l;
        case 4:
          return java.math.BigInteger.valueOf(l);
        case 5:
          {
            long x = r.next() >>> 33;
            return l ^ x ^ x << 32;
          }
        case 6:
          return l + (r.bool() ? 1L << 32 : 256);
        default:
          return -l;
      }
    }
    if (v instanceof java.math.BigDecimal) {
      java.math.BigDecimal b = (java.math.BigDecimal) v;
      if (Math.abs((long) b.scale()) > 2000) return v;
      switch (r.below(4)) {
        case 0:
          return b.negate();
        case 1:
          return b.setScale(b.scale() + 1 + r.below(3));
        case 2:
          return b.movePointLeft(1);
        default:
          return new java.math.BigDecimal(b.unscaledValue().add(java.math.BigInteger.ONE), b.scale());
      }
    }
    if (v instanceof java.math.BigInteger) {
      java.math.BigInteger b = (java.math.BigInteger) v;
      return r.bool() ? b.negate() : r.bool() ? (Object) b.longValue() : b.add(java.math.BigInteger.ONE.shiftLeft(64));
    }
    if (v instanceof CharSequence) {
      String s = v.toString();
      switch (r.below(5)) {
        case 0:
          return twist(r, s);
        case 1:
          return s.toLowerCase(java.util.Locale.ROOT);
        case 2:
          return s.isEmpty() ? "x" : s.substring(0, s.length() - 1) + (char) (s.charAt(s.length() - 1) ^ 1);
        case 3:
          return new StringBuilder(s);
        default:
          return s.isEmpty() ? s : s.substring(1) + s.charAt(0);
      }
    }
    if (v instanceof Character) return (char) ((Character) v ^ 32);
    return v;
  }

  /** Calls in a row whose arguments are easily taken for those of the call before. */
  private void lookAlikes(Rng r, long i) {
    Program p = Program.random(gen, r, 3, 20, "dixXfeEgGacsSs");
    if (p.args.isEmpty()) p.items.add(new Spec('s'));
    String fmt = Program.format(p.items);
    FastPrintf f = variant(r, FastPrintf.compile(fmt));
    List<Arg> l = Program.fill(gen, r, p.items, 20);
    if (r.chance(1, 3)) {
      for (int k = 0; k < l.size(); k++) {
        if (l.get(k).v instanceof String) {
          StringBuilder t = new StringBuilder();
          for (int b = r.range(1, 8); b > 0; b--) t.append(r.bool() ? "Aa" : "BB");
          l.set(k, Arg.of(t.toString()));
        }
      }
    }
    int n = r.range(3, 14);
    List<List<Arg>> before = new ArrayList<>();
    for (int c = 0; c < n; c++) {
      String want;
      try {
        Program.Expect e = Program.eval(p.items, l);
        want = e.refused ? null : e.text;
      } catch (Ref.Unspecified e) {
        want = null;
      }
      if (want != null) {
        rep.distinct(Rng.mix(Rng.hash(fmt), Rng.hash(want)));
        if (!same("look-alikes", i, "call " + c, f, fmt, l, null, want, r.below(4))) return;
      }
      before.add(l);
      if (r.chance(1, 5)) {
        l = before.get(r.below(before.size()));
        continue;
      }
      List<Arg> m = new ArrayList<>(l);
      int changes = r.range(1, 2);
      for (int k = 0; k < changes; k++) {
        int at = r.below(m.size());
        Object v = like(r, m.get(at).v);
        m.set(at, new Arg(v, m.get(at).prim && Arg.boxable(v)));
      }
      l = m;
    }
    rep.count("runs of look-alike calls");
  }

  private static final class Text {
    String s = "";

    @Override
    public String toString() {
      return s;
    }
  }

  private static final class TextSeq implements CharSequence {
    String s = "";

    @Override
    public int length() {
      return s.length();
    }

    @Override
    public char charAt(int i) {
      return s.charAt(i);
    }

    @Override
    public CharSequence subSequence(int a, int b) {
      return s.substring(a, b);
    }

    @Override
    public String toString() {
      return s;
    }
  }

  /** One list of arguments printed again after the objects in it have changed. */
  private void changing(Rng r, long i) {
    Spec s1 = new Spec(r.bool() ? 's' : 'S'), s2 = new Spec('s'), s3 = new Spec('s'), s4 = new Spec('s'), s5 = new Spec('d'), s6 = new Spec('s');
    for (Spec s : new Spec[] {s1, s2, s3, s4, s6}) {
      if (r.chance(1, 3)) s.width = r.range(1, 40);
      if (r.chance(1, 4)) s.prec = r.range(0, 40);
      s.minus = s.width > 0 && r.bool();
    }
    List<Object> items = new ArrayList<>();
    for (Spec s : new Spec[] {s1, s2, s3, s4, s5, s6}) {
      items.add(s);
      items.add("|");
    }
    String fmt = Program.format(items);
    FastPrintf f = variant(r, FastPrintf.compile(fmt));
    StringBuilder sb = new StringBuilder();
    Text t = new Text();
    TextSeq q = new TextSeq();
    int[] arr = new int[r.range(0, 5)];
    java.util.Date d = new java.util.Date(0);
    Object[] objs = {"x", null, t};
    List<Arg> l = Lib.list(Arg.of(sb), Arg.of(t), Arg.of(q), Arg.of(arr), Arg.of(d), Arg.of(objs));
    Args a = r.bool() ? Lib.args(l) : Args.of(Lib.values(l));
    if (r.bool()) a.values();
    for (int c = r.range(2, 8); c > 0; c--) {
      if (r.bool()) {
        sb.setLength(0);
        sb.append(gen.string(r, 60));
      }
      if (r.bool()) t.s = gen.string(r, 60);
      if (r.bool()) q.s = gen.string(r, 60);
      if (r.bool() && arr.length > 0) arr[r.below(arr.length)] = (int) gen.int64(r);
      if (r.bool()) d.setTime(gen.epochMillis(r));
      if (r.bool()) objs[r.below(2)] = r.bool() ? null : (Object) r.below(100);
      String want = Program.eval(items, l).text;
      rep.distinct(Rng.hash(want));
      if (!same("changing", i, "an argument has changed since the last call", f, fmt, l, r.chance(3, 4) ? a : null, want, r.below(4))) return;
    }
    rep.count("runs with changing arguments");
  }

  private final class Entry {
    final List<Object> items;
    final String fmt;
    final FastPrintf f;
    final String name;

    Entry(List<Object> items, String fmt, FastPrintf f, String name) {
      this.items = items;
      this.fmt = fmt;
      this.f = f;
      this.name = name;
    }
  }

  /** One call with its expected text. */
  private final class Job {
    Entry e;
    List<Arg> args;
    String want;

    String show() {
      return e.name + " " + Lib.show(e.fmt, args);
    }
  }

  /** Argument whose text conversion makes another call. */
  private final class Nest {
    final History h;
    final Job inner;
    final int mode;

    Nest(History h, Job inner, int mode) {
      this.h = h;
      this.inner = inner;
      this.mode = mode;
    }

    @Override
    public String toString() {
      if (h.describing) return "<nested call>";
      h.nested++;
      if (mode == 1) h.failing(inner.e);
      return h.perform(inner, mode == 2);
    }
  }

  /** The same as a character sequence. */
  private final class NestSeq implements CharSequence {
    final Nest n;
    String s;

    final boolean late;

    /** Late: the length is known, the inner call is made for the characters. */
    NestSeq(Nest n, boolean late) {
      this.n = n;
      this.late = late;
    }

    private String s() {
      if (n.h.describing) return "<nested call>";
      if (s == null) s = n.toString();
      return s;
    }

    @Override
    public int length() {
      return late && s == null ? (n.h.describing ? "<nested call>" : n.inner.want).length() : s().length();
    }

    @Override
    public char charAt(int i) {
      return s().charAt(i);
    }

    @Override
    public CharSequence subSequence(int a, int b) {
      return s().subSequence(a, b);
    }

    @Override
    public String toString() {
      return s();
    }
  }

  private final class History {
    final Rng r;
    final long index;
    final List<Entry> pool = new ArrayList<>();
    final List<String> log = new ArrayList<>();
    final List<String> results = new ArrayList<>();
    final List<char[]> copies = new ArrayList<>();
    boolean broken;
    boolean describing;
    int nested;
    long hash;

    History(Rng r, long index) {
      this.r = r;
      this.index = index;
    }

    void run() {
      int formats = r.range(1, 3);
      for (int k = 0; k < formats; k++) {
        Program p = Program.random(gen, r, 5, 30, "diuxXfeEgGacsSssstn");
        if (r.chance(3, 4)) {
          Spec s = new Spec(r.bool() ? 's' : 'S');
          if (r.chance(1, 3)) s.width = 1 + r.below(40);
          s.minus = r.bool();
          p.items.add(s);
          if (r.bool()) p.items.add("|end");
        }
        String fmt = Program.format(p.items);
        FastPrintf f = FastPrintf.compile(fmt);
        pool.add(new Entry(p.items, fmt, f, "f" + k));
        pool.add(new Entry(p.items, fmt, f.enableThreadLocalCache(), "f" + k + ".cached"));
        hash = Rng.mix(hash, Rng.hash(fmt));
      }
      int steps = r.range(10, 80);
      for (int s = 0; s < steps && !broken; s++) step();
      for (int k = 0; k < results.size() && !broken; k++) {
        if (!results.get(k).equals(new String(copies.get(k)))) bad("a returned text changed", "result " + k);
      }
      rep.count("steps", steps);
      rep.count("nested calls", nested);
      rep.distinct(hash);
      if (rep.wantsSamples()) rep.sample(String.join("; ", log.subList(0, Math.min(12, log.size()))));
    }

    void bad(String what, String detail) {
      if (broken) return;
      broken = true;
      StringBuilder sb = new StringBuilder(detail).append("\nhistory:");
      int from = Math.max(0, log.size() - 40);
      for (int k = from; k < log.size(); k++) sb.append("\n ").append(k).append(' ').append(log.get(k));
      fail("histories", index, what, sb.toString());
    }

    void note(String s) {
      log.add(s);
      hash = Rng.mix(hash, Rng.hash(s));
    }

    void step() {
      Entry e = pool.get(r.below(pool.size()));
      switch (r.below(12)) {
        case 0:
          {
            note("fail " + e.name);
            failing(e);
            return;
          }
        case 1:
          {
            note("huge " + e.name);
            Job j = job(e, 0, true);
            perform(j, r.bool());
            return;
          }
        case 2:
          {
            int c = r.bool() ? 1 + r.below(100) : r.pick(new int[] {1, 16, 17, 1000, 65535, 65536, 65537, 200000});
            note("capacity " + c + " of " + e.name);
            FastPrintf f = e.f.setStringBuilderInitialCapacity(c);
            if (pool.size() < 14) pool.add(new Entry(e.items, e.fmt, f, e.name + ".cap" + c));
            return;
          }
        case 3:
          {
            note("cache " + e.name);
            FastPrintf f = e.f.enableThreadLocalCache();
            if (pool.size() < 14) pool.add(new Entry(e.items, e.fmt, f, e.name + ".cached"));
            return;
          }
        case 4:
          {
            note("refused capacity of " + e.name);
            try {
              e.f.setStringBuilderInitialCapacity(-r.below(3));
              bad("a capacity below one was accepted", e.name);
            } catch (IllegalArgumentException x) {
              rep.count("refused capacities");
            }
            return;
          }
        case 5:
        case 6:
          {
            note("nested " + e.name);
            perform(job(e, r.range(1, 4), false), r.chance(1, 4));
            return;
          }
        case 7:
          {
            note("nested in destination " + e.name);
            viaSink(job(e, r.below(2), false), job(pick(), 0, false));
            return;
          }
        default:
          {
            note("call " + e.name);
            perform(job(e, 0, false), r.chance(1, 4));
          }
      }
    }

    Entry pick() {
      return pool.get(r.below(pool.size()));
    }

    /** Arguments for one call; with depth, some texts are produced by further calls. */
    Job job(Entry e, int depth, boolean huge) {
      Job j = new Job();
      j.e = e;
      j.args = Program.fill(gen, r, e.items, 30);
      List<Arg> mirror = new ArrayList<>(j.args);
      int k = 0;
      for (Object o : e.items) {
        if (!(o instanceof Spec)) continue;
        Spec s = (Spec) o;
        if (s.width == Spec.STAR) k++;
        if (s.prec == Spec.STAR) k++;
        if (s.lower() == 's') {
          if (huge && r.chance(2, 3)) {
            String t = Gen.string(r, r.pick(new int[] {3000, 65530, 65536, 70000, 150000}), 1);
            Arg a = Arg.of(r.bool() ? t : new StringBuilder(t));
            j.args.set(k, a);
            mirror.set(k, a);
          } else if (depth > 0 && r.chance(2, 3)) {
            // mostly on the very same formatter
            Job in = job(r.chance(2, 3) ? e : pick(), depth - 1, r.chance(1, 30));
            if (in.want.length() <= 200_000) {
              Nest n = new Nest(this, in, r.below(3));
              j.args.set(k, Arg.of(nest(n)));
              mirror.set(k, Arg.of(new Gen.Named(in.want)));
            }
          }
        }
        k++;
      }
      j.want = Program.eval(e.items, mirror).text;
      hash = Rng.mix(hash, Rng.hash(j.want));
      return j;
    }

    /** A text that makes the inner call when it is asked for, or only when its characters are. */
    private Object nest(Nest n) {
      int how = r.below(Gen.lazies == null ? 4 : 6);
      if (how < 2) return n;
      if (how < 4) return new NestSeq(n, how == 3);
      rep.count("nested calls made by deferred texts");
      return Gen.lazies.apply(n.inner.want, () -> n.toString());
    }

    String perform(Job j, boolean builder) {
      Args a = Lib.args(j.args);
      Lib.Out o =
          builder
              ? Lib.call(() -> j.e.f.format(new StringBuilder(), a).toString())
              : Lib.call(() -> j.e.f.format(a));
      rep.judged();
      if (o.error != null || !o.text.equals(j.want)) {
        describing = true;
        bad("wrong result", j.show() + "\nexpected: " + Report.quote(j.want) + "\nactual:   " + o
            + (o.error == null ? "" : CheckC11.trace(o.error)));
        describing = false;
        return j.want;
      }
      if (results.size() < 30 && o.text.length() < 5000) {
        results.add(o.text);
        copies.add(o.text.toCharArray());
      }
      return o.text;
    }

    void viaSink(Job outer, Job inner) {
      StringBuilder got = new StringBuilder();
      int at = r.below(4);
      Appendable d =
          new Appendable() {
            int n;

            private void hook() {
              if (n++ == at) {
                nested++;
                perform(inner, false);
              }
            }

            @Override
            public Appendable append(CharSequence s) {
              int l = s.length();
              got.append(s, 0, l / 2);
              hook();
              got.append(s, l / 2, l);
              return this;
            }

            @Override
            public Appendable append(CharSequence s, int a, int b) {
              int m = a + (b - a) / 2;
              got.append(s, a, m);
              hook();
              got.append(s, m, b);
              return this;
            }

            @Override
            public Appendable append(char c) {
              hook();
              got.append(c);
              return this;
            }
          };
      Lib.Out o = Lib.call(() -> {
        outer.e.f.format(d, Lib.args(outer.args));
        return got.toString();
      });
      rep.judged();
      if (o.error != null || !o.text.equals(outer.want)) {
        describing = true;
        bad("wrong result", outer.show() + "\nexpected: " + Report.quote(outer.want) + "\nactual:   " + o);
        describing = false;
      }
    }

    /** A call that fails somewhere; the failure itself is judged by another property. */
    void failing(Entry e) {
      List<Arg> args = Program.fill(gen, r, e.items, 30);
      rep.count("failing calls");
      switch (r.below(3)) {
        case 0:
          if (!args.isEmpty()) args = args.subList(0, r.below(args.size()));
          break;
        case 1:
          if (!args.isEmpty()) {
            Trap t = new Trap();
            t.reset(0, r.bool() ? new IllegalStateException("injected") : new CheckC12.Injected());
            args.set(r.below(args.size()), Arg.of(new Trap.Obj(t, "x")));
          }
          break;
        default:
          {
            List<Arg> l = args;
            Lib.call(() -> {
              e.f.format(new CheckC12.Failing(0, r.below(3), new IOException("injected"), true), Lib.args(l));
              return "";
            });
            return;
          }
      }
      List<Arg> l = args;
      if (r.bool()) Lib.call(() -> e.f.format(Lib.args(l)));
      else Lib.call(() -> e.f.format(new StringBuilder(), Lib.args(l)).toString());
    }
  }
}
