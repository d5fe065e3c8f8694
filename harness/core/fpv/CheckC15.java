package fpv;

import com.sun.management.ThreadMXBean;
import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import java.lang.management.ManagementFactory;
import java.lang.ref.WeakReference;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.atomic.AtomicLong;

/** Memory: allocation per call, retained heap, reachability. */
public final class CheckC15 extends Check {
  private static final ThreadMXBean MX = (ThreadMXBean) ManagementFactory.getThreadMXBean();
  /** Retention limit of a cached buffer in characters. */
  private static final int LIMIT = 65536;
  /** Bytes per call that need no justification. */
  private static final long FREE = 96 * 1024;
  /** Bytes allowed per character of format, arguments and output. */
  private static final long PER_CHAR = 400;

  private final AtomicLong worst = new AtomicLong();

  @Override
  public String level() {
    return "exploration";
  }

  @Override
  public String rule() {
    return "allocation counters around single calls (bound "
        + FREE
        + " + "
        + PER_CHAR
        + " bytes per character of format, arguments and output), live heap after collection for groups of"
        + " cached formatters after histories of huge and ordinary results, heap growth over batches of calls that have nothing in common, weak references to everything a"
        + " call was given; one evaluation = one measurement; distinct by scenario and content";
  }

  @Override
  public void run() throws Throwable {
    MX.setThreadAllocatedMemoryEnabled(true);
    cases("programs", 60_000, (r, i) -> program(r, i));
    cases("decimals", 20_000, (r, i) -> decimals(r, i));
    cases("long formats", 240, (r, i) -> longFormat(r, i));
    cases("fields", 60_000, (r, i) -> fields(r, i));
    cases("many calls", 64, (r, i) -> manyCalls(r, i));
    cases("after huge", 300, (r, i) -> afterHuge(r, i));
    rep.extra("worst_bytes_per_character", worst.get());
    if (only("retained")) sequential("retained", (int) (42 * Math.min(scale, 20)), this::retained);
    if (only("left behind")) sequential("left behind", (int) (24 * Math.min(scale, 20)), this::leftBehind);
    if (only("growth")) sequential("growth", (int) (16 * Math.min(scale, 10)), this::growth);
    if (only("reachable")) sequential("reachable", (int) (40 * Math.min(scale, 20)), this::reachable);
  }

  private boolean only(String phase) {
    String c = System.getenv("VERIF_CASE");
    return c == null || c.isEmpty() || c.startsWith(phase + "/");
  }

  private interface Step {
    void run(Rng r, long i) throws Exception;
  }

  /** Heap measurements exclude each other. */
  private void sequential(String phase, int n, Step s) throws Exception {
    long base = Rng.mix(rep.seed, Rng.hash(rep.property + "/" + phase));
    String c = System.getenv("VERIF_CASE");
    long t0 = System.nanoTime();
    int done = 0;
    for (int i = 0; i < n && !rep.tooMany(); i++) {
      if (c != null && !c.isEmpty() && !c.equals(phase + "/" + i)) continue;
      if ((System.nanoTime() - t0) / 1e9 > cap) break;
      s.run(new Rng(Rng.mix(base, i)), i);
      done++;
    }
    rep.count("cases " + phase, done);
  }

  // ------------------------------------------------------------- allocation

  private static long size(Object v) {
    if (v == null) return 4;
    if (v instanceof CharSequence) return ((CharSequence) v).length();
    if (v instanceof BigInteger) return ((BigInteger) v).bitLength() / 3 + 1;
    if (v instanceof BigDecimal) return ((BigDecimal) v).unscaledValue().bitLength() / 3 + 1;
    if (v.getClass().isArray()) return Ref.text(v).length();
    if (v instanceof Gen.Named) return v.toString().length();
    return 24;
  }

  /** Bytes allocated by this thread; the least of three runs leaves out one-time initialisation. */
  private static long allocated(Runnable body) {
    long id = Thread.currentThread().getId();
    long best = Long.MAX_VALUE;
    for (int k = 0; k < 3; k++) {
      long a = MX.getThreadAllocatedBytes(id);
      body.run();
      best = Math.min(best, MX.getThreadAllocatedBytes(id) - a);
      if (k == 0 && best < FREE) break;
    }
    return best;
  }

  private void measure(Rng r, String phase, long i, String fmt, List<Arg> args) {
    measure(r, phase, i, fmt, args, 0);
  }

  /** Lost is what a refused call may have prepared before it met the refused argument. */
  private void measure(Rng r, String phase, long i, String fmt, List<Arg> args, long lost) {
    long in = fmt.length() + 1;
    for (Arg a : args) in += size(a.v);
    int[] out = new int[1];
    int how = r.below(4);
    FastPrintf ready = null;
    try {
      ready = FastPrintf.compile(fmt);
    } catch (RuntimeException e) {
      // measured all the same
    }
    FastPrintf f = how == 0 || ready == null ? null : how == 1 ? ready.enableThreadLocalCache() : ready;
    Args shared = Lib.args(args);
    long bytes =
        allocated(
            () -> {
              try {
                if (f == null) out[0] = FastPrintf.compile(fmt).format(Lib.args(args)).length();
                else if (how == 3) out[0] = f.format(new StringBuilder(), shared).length();
                else out[0] = f.format(shared).length();
              } catch (RuntimeException e) {
                // refused; may not cost more than what was given
              }
            });
    rep.judged();
    rep.count("calls measured");
    long chars = in + (out[0] == 0 ? lost : out[0]);
    long bound = FREE + PER_CHAR * chars;
    if (bytes > FREE) worst.accumulateAndGet((bytes - FREE) / chars, Math::max);
    if (bytes > bound) {
      fail(
          phase,
          i,
          "allocation out of proportion",
          Lib.show(fmt.length() > 300 ? fmt.substring(0, 300) + "..." : fmt, args.size() > 20 ? args.subList(0, 20) : args)
              + "\nallocated "
              + bytes
              + " bytes for "
              + in
              + " characters in and "
              + out[0]
              + " out (allowed "
              + bound
              + ")");
    }
  }

  private void program(Rng r, long i) {
    Program p = Program.random(gen, r, 12, r.chance(1, 20) ? 20_000 : 60, "diuoxXfFeEgGaAsSctTpn");
    long lost = 0;
    try {
      Program.Expect e = Program.eval(p.items, p.args);
      if (e.refused) lost = e.text.length();
    } catch (Ref.Unspecified x) {
      lost = 70_000;
    }
    measure(r, "programs", i, p.fmt, p.args, lost);
    rep.distinct(p.hash());
  }

  /** Decimals and integers whose size and exponent have nothing to do with each other. */
  private void decimals(Rng r, long i) {
    BigInteger u;
    switch (r.below(4)) {
      case 0:
        u = BigInteger.valueOf(r.range(-20, 20));
        break;
      case 1:
        u = gen.bigInteger(r);
        break;
      case 2:
        u = BigInteger.TEN.pow(r.below(40));
        break;
      default:
        u = new BigInteger(Gen.digits(r, r.chance(1, 40) ? r.range(1000, 20_000) : r.range(1, 60)));
    }
    int scale;
    switch (r.below(5)) {
      case 0:
        scale = r.range(-40, 40);
        break;
      case 1:
        scale = r.range(0, 20_000);
        break;
      case 2:
        scale = r.range(100_000, 50_000_000);
        break;
      case 3:
        scale = -r.range(0, 3000);
        break;
      default:
        scale = r.bool() ? Integer.MAX_VALUE - r.below(3) : r.range(1_000_000, Integer.MAX_VALUE);
    }
    char conv = r.pick("fFeEgGeEgGdiuxos");
    BigDecimal b = new BigDecimal(u, scale);
    // the largest exponents have no plain form worth printing; scientific forms stay small
    if ("eEgG".indexOf(conv) >= 0 && r.bool() && scale > 0) b = new BigDecimal(u, -scale);
    Spec s = gen.spec(r, conv);
    s.width = s.width > 200 ? 20 : s.width;
    s.prec = s.prec > 2000 ? 20 : s.prec;
    Object v = b;
    if (r.chance(1, 8)) v = u;
    measure(r, "decimals", i, s.text(), Lib.list(Arg.of(v)));
    rep.distinct(Directive.hash(s, v));
    if (rep.wantsSamples()) rep.sample(s.text() + " of " + Arg.describe(v));
  }

  /** Very many directives, very long literals, very many arguments. */
  private void longFormat(Rng r, long i) {
    int n = r.range(2000, 40_000);
    StringBuilder sb = new StringBuilder();
    List<Arg> args = new ArrayList<>();
    int mode = r.below(4);
    String[] dir = {"%d", "%s", "%5d|", "%x", "%c", "%.2f", "%-6s", "%e", "%S", "%g"};
    for (int k = 0; k < n; k++) {
      String d = mode == 0 ? "%d" : mode == 1 ? "%s" : r.pick(dir);
      if (mode == 3 && k % 2 == 0) {
        sb.append("lit%%");
        continue;
      }
      sb.append(d);
      char c = d.charAt(d.length() - 1) == '|' ? 'd' : d.charAt(d.length() - 1);
      if (c == 's' || c == 'S') args.add(Arg.of(k % 7 == 0 ? (Object) k : "t" + k));
      else if (c == 'c') args.add(Arg.of('x'));
      else if (c == 'f' || c == 'e' || c == 'g') args.add(Arg.of(k * 0.37));
      else args.add(Arg.of(k));
    }
    if (r.bool()) sb.append(Ref.rep('z', r.range(0, 400_000)));
    measure(r, "long formats", i, sb.toString(), args);
    rep.distinct(Rng.hash(sb));
  }

  /** Whatever stands in width and precision, one directive stays small. */
  private void fields(Rng r, long i) {
    Spec s = gen.spec(r, r.pick("diuoxXfFeEgGaAsSct"));
    List<Arg> args = new ArrayList<>();
    Object v = gen.valueFor(r, s.conv);
    if (v instanceof BigDecimal || v instanceof CharSequence || v != null && v.getClass().isArray()) v = s.lower() == 't' ? v : (Object) r.range(0, 999);
    String w = "", p = "";
    if (r.bool()) {
      w = "*";
      args.add(star(r));
    } else if (r.bool()) {
      w = "" + (1 + (r.bits(r.range(1, 62))));
    }
    if (r.bool()) {
      p = ".*";
      args.add(star(r));
    } else if (r.bool()) {
      p = "." + r.bits(r.range(1, 62));
    }
    String fmt = "%" + (s.minus ? "-" : "") + (s.zero ? "0" : "") + w + p + s.conv;
    args.add(Arg.of(v));
    int[] len = new int[1];
    Lib.Out o = Lib.format(fmt, args);
    rep.judged();
    if (o.error == null) {
      len[0] = o.text.length();
      rep.count("fields accepted");
      if (len[0] > 2 * LIMIT + 2000) {
        fail("fields", i, "a directive printed " + len[0] + " characters", Lib.show(fmt, args));
        return;
      }
    } else {
      rep.count("fields refused");
      if (!(o.error instanceof RuntimeException)) {
        fail("fields", i, "a directive failed with an error", Lib.show(fmt, args) + "\nactual: " + o);
        return;
      }
    }
    measure(r, "fields", i, fmt, args);
    rep.distinct(Rng.mix(Rng.hash(fmt), len[0]));
  }

  private Arg star(Rng r) {
    long n = r.bool() ? r.range(-70_000, 70_000) : r.chance(1, 2) ? (int) gen.int64(r) : gen.int64(r);
    switch (r.below(6)) {
      case 0:
        return Arg.of(n);
      case 1:
        return Arg.of((double) n);
      case 2:
        return Arg.of(BigInteger.valueOf(n).multiply(BigInteger.valueOf(r.range(1, 1000))));
      case 3:
        return Arg.of(Long.toString(n));
      default:
        return Arg.of((int) n);
    }
  }

  /** The cost of a call does not depend on how many came before it. */
  private void manyCalls(Rng r, long i) {
    Program p = Program.random(gen, r, 6, 40, "diuoxXfFeEgGsSct");
    boolean cached = r.bool();
    FastPrintf f = cached ? FastPrintf.compile(p.fmt).enableThreadLocalCache() : FastPrintf.compile(p.fmt);
    Args a = Lib.args(p.args);
    int mode = r.below(3);
    int batch = 200;
    long id = Thread.currentThread().getId();
    long early = Long.MAX_VALUE, late = Long.MAX_VALUE;
    int batches = 200;
    for (int b = 0; b < batches; b++) {
      long t = MX.getThreadAllocatedBytes(id);
      for (int k = 0; k < batch; k++) {
        try {
          if (mode == 0) f.format(a);
          else if (mode == 1) f.format(new StringBuilder(16), a);
          else f.format(Lib.args(p.args));
        } catch (RuntimeException e) {
          // refused directives count as calls too
        }
      }
      long d = MX.getThreadAllocatedBytes(id) - t;
      if (b >= 2 && b < 12) early = Math.min(early, d);
      if (b >= batches - 10) late = Math.min(late, d);
    }
    rep.judged();
    rep.count("repeated calls", (long) batch * batches);
    rep.distinct(Rng.mix(p.hash(), mode * 2 + (cached ? 1 : 0)));
    if (late > early * 3 / 2 + 64 * batch) {
      fail(
          "many calls",
          i,
          "calls become more expensive",
          p.show() + "\nbytes per " + batch + " calls: " + early + " at first, " + late + " after " + batch * batches + " calls");
    }
  }

  /** What a short call allocates does not follow the huge ones before it. */
  private void afterHuge(Rng r, long i) {
    boolean cached = r.bool();
    FastPrintf f = FastPrintf.compile(r.pick(new String[] {"%s", "a%sb", "%5s|", "%-8S"}));
    if (cached) f = f.enableThreadLocalCache();
    if (r.chance(1, 4)) f = f.setStringBuilderInitialCapacity(r.range(1, 2000));
    FastPrintf g = f;
    char[] c = new char[r.range(100_000, 1_000_000)];
    java.util.Arrays.fill(c, (char) ('!' + r.below(90)));
    String huge = new String(c);
    Object big = r.bool() ? huge : new StringBuilder(huge);
    int n = r.range(1, 3);
    int how = r.below(3);
    for (int k = 0; k < n; k++) {
      if (how == 0) g.format(new StringBuilder(), Args.of(big));
      else if (how == 1 && k == 0) g.format(new java.io.StringWriter(), Args.of(big));
      else g.format(big);
    }
    Args a = Args.of("x" + i % 10);
    // the buffer of the huge result may still be replaced by the first short call
    g.format(a);
    int mode = r.below(4);
    long bytes =
        allocated(
            () -> {
              if (mode == 0) g.format(new StringBuilder(), a);
              else if (mode == 1) g.format(new java.io.StringWriter(), a);
              else g.format(a);
            });
    rep.judged();
    rep.count("short calls after huge ones");
    rep.distinct(Rng.mix(huge.length(), Rng.mix(mode, n)));
    if (bytes > FREE + PER_CHAR * 40) {
      fail("after huge", i, "allocation out of proportion", "a short call after one that printed " + huge.length() + " characters" + (cached ? " (cached)" : "") + " allocated " + bytes + " bytes");
    }
  }

  // --------------------------------------------------------------- retained

  private static long live() {
    long best = Long.MAX_VALUE;
    for (int k = 0; k < 3; k++) {
      System.gc();
      best = Math.min(best, Runtime.getRuntime().totalMemory() - Runtime.getRuntime().freeMemory());
    }
    return best;
  }

  /** Runs a task on a thread that stays alive until released. */
  private static final class Holder implements AutoCloseable {
    private final CountDownLatch end = new CountDownLatch(1);
    private final java.util.concurrent.SynchronousQueue<Runnable> q = new java.util.concurrent.SynchronousQueue<>();
    private final java.util.concurrent.SynchronousQueue<Object> back = new java.util.concurrent.SynchronousQueue<>();

    Holder() {
      Thread t =
          new Thread(
              () -> {
                try {
                  while (end.getCount() > 0) {
                    Runnable b = q.poll(50, java.util.concurrent.TimeUnit.MILLISECONDS);
                    if (b == null) continue;
                    Object res = "ok";
                    try {
                      b.run();
                    } catch (Throwable e) {
                      res = e;
                    }
                    b = null;
                    back.put(res);
                    res = null;
                  }
                } catch (InterruptedException e) {
                  // ends
                }
              },
              "holder");
      t.setDaemon(true);
      t.start();
    }

    void run(Runnable b) throws InterruptedException {
      q.put(b);
      Object r = back.take();
      if (r instanceof Throwable) throw new IllegalStateException((Throwable) r);
    }

    @Override
    public void close() {
      end.countDown();
    }
  }

  private void retained(Rng r, long i) throws Exception {
    int group = 48;
    int[] sizes = {110_000, 150_000, 200_000, 400_000, 1_000_000};
    int huge = sizes[(int) (i / 7 % sizes.length)];
    boolean wide = r.bool();
    int capacity = i % 4 == 3 ? r.pick(new int[] {1, 100, 60_000, 65_536, 80_000, 100_000}) : 0;
    int mode = (int) (i % 7);
    int threads = r.chance(1, 3) ? 2 : 1;
    // the buffer grows by pieces, to more than the text needs
    int[] pieces = new int[6];
    if (mode == 4) {
      pieces[0] = r.range(44_000, 60_000);
      pieces[1] = r.range(1, 65_536 - pieces[0]);
    } else if (mode >= 5) {
      for (int k = 0; k < pieces.length; k++) pieces[k] = r.range(1, 30_000);
      if (mode == 6) pieces[r.below(3)] = huge;
    }
    String what =
        (mode >= 4 ? java.util.Arrays.toString(pieces) : "" + huge) + (wide ? " wide" : " narrow") + " characters, capacity " + capacity + ", mode " + mode + ", " + threads + " threads";
    char c = wide ? '中' : 'h';
    List<FastPrintf> fs = new ArrayList<>();
    for (int k = 0; k < group; k++) {
      FastPrintf f = FastPrintf.compile(mode >= 4 ? "%s%s%s%s%s%s" : mode == 1 ? "%s%s" : "%s");
      if (capacity > 0 && k % 2 == 0) f = f.setStringBuilderInitialCapacity(capacity);
      f = f.enableThreadLocalCache();
      if (capacity > 0 && k % 2 == 1) f = f.setStringBuilderInitialCapacity(capacity);
      fs.add(f);
    }
    List<Holder> hs = new ArrayList<>();
    for (int t = 0; t < threads; t++) hs.add(new Holder());
    String big = Ref.rep(c, huge);
    try {
      // every formatter has been used before, so what is measured is only what the huge result left
      Runnable small = () -> {
        for (FastPrintf f : fs) f.format("a", "b", "c", "d", "e", "f");
      };
      Object[] parts = new Object[pieces.length];
      for (int k = 0; k < parts.length; k++) parts[k] = Ref.rep(c, pieces[k]);
      // the last call before the ordinary one fails in the middle
      Object[] broken = parts.clone();
      broken[5] =
          new Object() {
            @Override
            public String toString() {
              throw new IllegalStateException("no text");
            }
          };
      for (Holder h : hs) h.run(small);
      long before = live();
      Runnable large =
          () -> {
            for (FastPrintf f : fs) {
              switch (mode) {
                case 0:
                case 1:
                  f.format(big, "x");
                  break;
                case 2:
                  // from the middle of another call on the same formatter
                  f.format(
                      new Object() {
                        @Override
                        public String toString() {
                          return f.format(big, "y").substring(0, 5);
                        }
                      });
                  f.format(big, "x");
                  break;
                case 4:
                case 5:
                  f.format(parts);
                  break;
                case 6:
                  try {
                    f.format(broken);
                  } catch (IllegalStateException e) {
                    // as meant
                  }
                  break;
                default:
                  // the huge call fails after its text was written
                  f.format(big, "x");
                  try {
                    f.format();
                  } catch (RuntimeException e) {
                    // missing argument
                  }
              }
            }
          };
      for (Holder h : hs) {
        h.run(large);
        h.run(small);
      }
      long after = live();
      rep.judged();
      rep.count("cached buffers observed", (long) group * threads);
      rep.distinct(Rng.hash(what));
      if (rep.wantsSamples()) rep.sample(what + ": " + (after - before) + " bytes kept by " + group * threads + " buffers");
      long each = (after - before) / (group * threads);
      long allowed = (long) Math.max(LIMIT, capacity) * (wide ? 2 : 1) + 20 * 1024;
      synchronized (worst) {
        keptMost = Math.max(keptMost, each);
        rep.extra("most_bytes_kept_per_buffer", keptMost);
      }
      if (each > allowed) {
        // measured again from scratch before it counts
        long again = (live() - before) / (group * threads);
        if (again > allowed) {
          fail("retained", i, "cached memory kept", what + "\nkept per formatter and thread: " + again + " bytes, allowed " + allowed);
        }
      }
      // the thread and formatters were alive the whole time
      if (fs.get(0).format("a", "b", "c", "d", "e", "f") == null) throw new AssertionError();
    } finally {
      for (Holder h : hs) h.close();
    }
  }

  private long keptMost;

  /** What one huge call of any kind leaves behind on its thread, formatter still there. */
  private void leftBehind(Rng r, long i) throws Exception {
    int n = 4_000_000;
    int kind = (int) (i % 6);
    int to = (int) (i / 6 % 4);
    boolean cached = r.chance(1, 3);
    String fmt = r.pick(new String[] {"%S", "a%Sb%s", "%s", "%-9S", "%9S", "%5s|%S", "%S%S"});
    FastPrintf f = FastPrintf.compile(fmt);
    FastPrintf g = cached ? f.enableThreadLocalCache() : f;
    char c = r.bool() ? 'h' : '\u4e2d';
    String what = n + " characters, kind " + kind + ", destination " + to + ", format " + fmt + (cached ? " cached" : "");
    try (Holder h = new Holder()) {
      Runnable small = () -> {
        for (int k = 0; k < 3; k++) {
          g.format(k, "b");
          g.format(new StringBuilder(), Args.of("x", k));
          g.format(new java.io.StringWriter(), Args.of("x", k));
        }
      };
      h.run(small);
      long before = live();
      h.run(
          () -> {
            String t = Ref.rep(c, n);
            Object v;
            switch (kind) {
              case 0:
                v = new StringBuilder(t);
                break;
              case 1:
                v = t.toCharArray();
                break;
              case 2:
                v = new Gen.Named(t);
                break;
              case 3:
                v = new Object[] {t, "x"};
                break;
              case 4:
                v = new byte[n];
                break;
              default:
                v = t;
            }
            Args a = Args.of(v, "z");
            if (to == 0) g.format(a);
            else if (to == 1) g.format(new StringBuilder(), a);
            else if (to == 2) g.format(new java.io.StringWriter(), a);
            else g.format(new Sinks.Log(0), a);
          });
      h.run(small);
      long kept = live() - before;
      rep.judged();
      rep.count("huge calls whose remains were measured");
      rep.distinct(Rng.mix(991, Rng.mix(kind * 8 + to, Rng.hash(what))));
      if (kept > 1_500_000) kept = live() - before;
      if (kept > 1_500_000) fail("left behind", i, "memory kept after a huge call", what + "\nkept " + kept + " bytes");
      if (g.format("a", "b") == null) throw new AssertionError();
    }
  }

  // ----------------------------------------------------------------- growth

  /** Batches of calls that have nothing in common; each leaves no more behind than the last. */
  private void growth(Rng r, long i) throws Exception {
    int mode = (int) (i % 8);
    int batch = mode < 6 ? 30_000 : 900;
    long limit = 1_800_000;
    int[] serial = {r.range(1, 1000) * 1_000_000};
    Runnable body = () -> {
      for (int k = 0; k < batch; k++) different(mode, serial[0]++);
    };
    long[] live = new long[6];
    try (Holder h = new Holder()) {
      h.run(body);
      live[0] = live();
      int n = 1;
      for (; n < live.length; n++) {
        h.run(body);
        live[n] = live();
        if (live[n] - live[n - 1] < limit) break;
      }
      rep.judged();
      rep.count("batches of different calls", Math.min(n, 5) + 1);
      rep.count("calls between heap measurements", (long) batch * (Math.min(n, 5) + 1));
      rep.distinct(Rng.mix(77, Rng.mix(mode, serial[0])));
      if (n == live.length) {
        fail("growth", i, "memory grows with the number of calls", "mode " + mode + ", live bytes after batches of " + batch + " calls: " + Arrays.toString(live));
      }
    }
  }

  private static void different(int mode, int n) {
    switch (mode) {
      case 0:
        FastPrintf.compile("text " + n + " %" + (n % 500 + 1) + "d").format(n);
        break;
      case 1:
        FastPrintf.compile("%t{yyyy '" + n + "'}").format(java.time.LocalDate.ofEpochDay(n % 100_000));
        break;
      case 2:
        KEPT.format("string " + n, n, n * 1.25, (char) n, new BigDecimal(BigInteger.valueOf(n), 3));
        break;
      case 3:
        KEPT_CACHED.format("string " + n, (long) n << 20, n * 1e-9, (char) n, new BigDecimal(BigInteger.valueOf(n), -3));
        break;
      case 4:
        try {
          FastPrintf.compile("%d %" + (char) (200 + n % 60_000)).format(n);
        } catch (RuntimeException e) {
          // refused
        }
        try {
          KEPT.format("string " + n, "not a number " + n);
        } catch (RuntimeException e) {
          // refused
        }
        break;
      case 6:
        {
          int w = (int) (n * 7919L % 60_000);
          WIDE.format(w, n, w, "x", w, 0.5, w, n);
          WIDE_CACHED.format(new StringBuilder(), Args.of(w, n, -w, "x", w / 2, 0.5, w, n));
          break;
        }
      case 7:
        {
          String t = Ref.rep((char) ('a' + n % 26), 1500) + n;
          char[] c = t.toCharArray();
          LONG.format(t, new StringBuilder(t), c, new BigInteger(Ref.rep('7', 400) + n), new Gen.Named(t), new Object[] {t, n}, new BigDecimal("0." + Ref.rep('3', 300) + n));
          break;
        }
      default:
        {
          Args a = Args.of(n, "x" + n, new Gen.Named("n" + n), new int[] {n}, java.time.Instant.ofEpochSecond(n));
          a.values();
          FastPrintf.compile("%*d %S").setStringBuilderInitialCapacity(n % 900 + 1).format(n % 60, n, "y" + n);
          ALL.format(a);
        }
    }
  }

  private static final FastPrintf KEPT = FastPrintf.compile("%s %d %e %c %f");
  private static final FastPrintf KEPT_CACHED = FastPrintf.compile("%s %d %e %c %f").enableThreadLocalCache();
  private static final FastPrintf WIDE = FastPrintf.compile("%*d%-*s%.*f%0*d");
  private static final FastPrintf WIDE_CACHED = WIDE.enableThreadLocalCache();
  private static final FastPrintf LONG = FastPrintf.compile("%s%S%s%d%.900s%s%.200f");
  private static final FastPrintf ALL = FastPrintf.compile("%d %s %s %s %t");

  // -------------------------------------------------------------- reachable

  private static final class Probe {
    final List<WeakReference<Object>> refs = new ArrayList<>();
    final List<String> names = new ArrayList<>();

    void watch(String name, Object o) {
      refs.add(new WeakReference<>(o));
      names.add(name);
    }
  }

  /** Everything handed to calls is released afterwards, with formatter and thread still there. */
  private void reachable(Rng r, long i) throws Exception {
    boolean cached = r.bool();
    FastPrintf f = FastPrintf.compile("%s|%5s|%d|%.30S|%s");
    FastPrintf kept = cached ? f.enableThreadLocalCache() : f;
    Probe p = new Probe();
    int mode = (int) (i % 8);
    try (Holder h = new Holder()) {
      h.run(() -> use(r, mode, kept, p));
      boolean again = i / 8 % 2 == 1;
      if (again) h.run(() -> kept.format("a", "b", 1, "c", "d"));
      String alive = null;
      for (int k = 0; k < 12; k++) {
        System.gc();
        alive = null;
        for (int j = 0; j < p.refs.size(); j++) if (p.refs.get(j).get() != null) alive = p.names.get(j);
        if (alive == null) break;
        Thread.sleep(20);
      }
      rep.judged();
      rep.count("objects watched", p.refs.size());
      rep.distinct(Rng.mix(mode, Rng.mix((cached ? 1 : 0) + (again ? 2 : 0), p.refs.size())));
      if (alive != null) {
        fail("reachable", i, "still reachable after use", "mode " + mode + (cached ? " cached" : " plain") + ": " + alive);
      }
      if (kept.format("a", "b", 1, "c", "d") == null) throw new AssertionError();
    }
  }

  public static class Guest {
    @Override
    public String toString() {
      return "guest";
    }
  }

  public static class GuestNumber extends Number {
    @Override
    public int intValue() {
      return 7;
    }

    @Override
    public long longValue() {
      return 7;
    }

    @Override
    public float floatValue() {
      return 7;
    }

    @Override
    public double doubleValue() {
      return 7;
    }
  }

  public static class GuestText implements CharSequence {
    @Override
    public int length() {
      return 2;
    }

    @Override
    public char charAt(int i) {
      return (char) ('4' + i);
    }

    @Override
    public CharSequence subSequence(int from, int to) {
      return toString().substring(from, to);
    }

    @Override
    public String toString() {
      return "45";
    }
  }

  public static class GuestDate extends java.util.Date {}

  private static final String[] GUESTS = {"Guest", "GuestNumber", "GuestText", "GuestDate"};

  /** Values whose classes go away with their loader, as plug-ins do. */
  private void guests(Rng r, FastPrintf kept, Probe p) {
    try {
      ClassLoader l =
          new ClassLoader(null) {
            @Override
            protected Class<?> findClass(String n) throws ClassNotFoundException {
              try (java.io.InputStream in = CheckC15.class.getResourceAsStream("/" + n.replace('.', '/') + ".class")) {
                java.io.ByteArrayOutputStream b = new java.io.ByteArrayOutputStream();
                for (int c; (c = in.read()) >= 0; ) b.write(c);
                return defineClass(n, b.toByteArray(), 0, b.size());
              } catch (java.io.IOException e) {
                throw new ClassNotFoundException(n, e);
              }
            }
          };
      p.watch("class loader of arguments", l);
      for (String g : GUESTS) {
        Class<?> c = l.loadClass("fpv.CheckC15$" + g);
        Object o = c.getDeclaredConstructor().newInstance();
        Object[] several = (Object[]) java.lang.reflect.Array.newInstance(c, 2);
        several[0] = o;
        p.watch("guest", o);
        for (String conv : new String[] {"%s", "%9S", "%d", "%e", "%c", "%p", "%t", "%*d", "%x", "%a"}) {
          FastPrintf f = r.bool() ? FastPrintf.compile(conv) : FastPrintf.compile(conv).enableThreadLocalCache();
          Lib.call(() -> f.format(o, o));
          Lib.call(() -> f.format(new Object[] {several}));
        }
        Args a = Args.of(o, several, 1, o, o);
        Lib.call(() -> kept.format(a));
        a.values();
        a.toString();
        rep.count("values of classes with a loader of their own");
      }
    } catch (ReflectiveOperationException e) {
      throw new IllegalStateException(e);
    }
  }

  private void use(Rng r, int mode, FastPrintf kept, Probe p) {
    int n = r.range(1, 40);
    guests(r, kept, p);
    for (int k = 0; k < n; k++) {
      Object o = new Gen.Named("named " + k);
      StringBuilder sb = new StringBuilder("text ").append(k);
      BigDecimal d = new BigDecimal("12345678901234567890.5");
      String s = new String("some string " + k);
      Object[] arr = {new Object(), "x"};
      Args a = Args.of(o, sb, d, s, arr);
      StringBuilder sink = new StringBuilder();
      java.io.StringWriter writer = new java.io.StringWriter();
      FastPrintf own = FastPrintf.compile("%s|%s|%d|%s|%s");
      if (mode % 2 == 1) own = own.enableThreadLocalCache();
      p.watch("object", o);
      p.watch("builder argument", sb);
      p.watch("decimal argument", d);
      p.watch("string argument", s);
      p.watch("array argument", arr);
      p.watch("argument list", a);
      p.watch("formatter", own);
      switch (mode) {
        case 0:
        case 1:
          kept.format(a);
          own.format(a);
          break;
        case 2:
          kept.format(sink, a);
          own.format(writer, a);
          break;
        case 3:
          // calls that end in the middle
          try {
            kept.format(Args.of(o, sb, "not a number"));
          } catch (RuntimeException e) {
            // not watched: an exception may be shared
          }
          try {
            own.format(Args.of(o));
          } catch (RuntimeException e) {
            // not watched: an exception may be shared
          }
          break;
        case 4:
          for (int j = 0; j < 3; j++) kept.format(a);
          a.values();
          a.toString();
          break;
        case 5:
          {
            // nested use from an argument
            Object nest =
                new Object() {
                  @Override
                  public String toString() {
                    return kept.format(a);
                  }
                };
            kept.format(nest, nest, 5, "x", nest);
            p.watch("nested argument", nest);
            break;
          }
        case 6:
          try {
            kept.format(
                (Appendable)
                    new Sinks.Log(0) {
                      @Override
                      public Appendable append(CharSequence q) {
                        throw new IllegalStateException("full");
                      }
                    },
                a);
          } catch (RuntimeException e) {
            // not watched: an exception may be shared
          }
          own.format(a);
          break;
        default:
          own.setStringBuilderInitialCapacity(777).format(a);
          own.enableThreadLocalCache().format(a);
          kept.format(o, sb, d, s, arr);
      }
      p.watch("destination", sink);
      p.watch("writer", writer);
    }
  }
}
