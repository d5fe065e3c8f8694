package fpv;

import java.lang.management.ManagementFactory;
import java.lang.management.ThreadMXBean;
import java.util.concurrent.atomic.AtomicBoolean;
import java.util.concurrent.atomic.AtomicLong;

/** Runs numbered cases on all cores. Each case depends only on the seed and its number. */
public final class Runner {
  public interface Case {
    void run(Rng r, long index) throws Throwable;
  }

  /** CPU seconds within one case after which the library is taken not to return. */
  private static final long STUCK_CPU_S = 90;

  private Runner() {}

  public static int threads() {
    return Math.max(2, Math.min(8, Runtime.getRuntime().availableProcessors()));
  }

  private static final class Worker extends Meter.Metered {
    volatile long current = -1;
    volatile long startCpu;

    Worker(Runnable r, String n) {
      super(null, r, n, 1L << 22);
    }
  }

  /** @param capSeconds stop handing out cases after this long (recorded in the evidence) */
  public static void run(Report rep, String phase, long cases, double capSeconds, Case body)
      throws InterruptedException {
    long base = Rng.mix(rep.seed, Rng.hash(rep.property + "/" + phase));
    String only = System.getenv("VERIF_CASE");
    if (only != null && !only.isEmpty()) {
      int c = only.lastIndexOf('/');
      if (!only.substring(0, Math.max(0, c)).equals(phase)) return;
      long i = Long.parseLong(only.substring(c + 1));
      one(rep, phase, base, i, body);
      return;
    }
    AtomicLong next = new AtomicLong();
    AtomicLong done = new AtomicLong();
    AtomicBoolean capped = new AtomicBoolean();
    long t0 = System.nanoTime();
    int n = threads();
    int block = (int) Math.max(1, Math.min(256, cases / (n * 8L)));
    Worker[] ws = new Worker[n];
    ThreadMXBean mx = ManagementFactory.getThreadMXBean();
    for (int w = 0; w < n; w++) {
      ws[w] =
          new Worker(
              () -> {
                Worker me = (Worker) Thread.currentThread();
                while (!rep.tooMany()) {
                  long b = next.getAndAdd(block);
                  if (b >= cases) return;
                  if ((System.nanoTime() - t0) / 1e9 > capSeconds) {
                    capped.set(true);
                    return;
                  }
                  for (long i = b; i < Math.min(cases, b + block); i++) {
                    me.startCpu = mx.getCurrentThreadCpuTime();
                    me.current = i;
                    one(rep, phase, base, i, body);
                    me.current = -1;
                    done.incrementAndGet();
                    if (rep.tooMany()) return;
                  }
                }
              },
              "worker-" + w);
      ws[w].setDaemon(true);
      ws[w].start();
    }
    long lastDone = -1;
    long lastProgress = System.nanoTime();
    for (; ; ) {
      boolean alive = false;
      for (Worker w : ws) {
        w.join(20);
        alive |= w.isAlive();
      }
      if (!alive) break;
      long d = done.get();
      if (d != lastDone) {
        lastDone = d;
        lastProgress = System.nanoTime();
      }
      for (Worker w : ws) {
        long c = w.current;
        if (c < 0) continue;
        long cpu = mx.getThreadCpuTime(w.getId()) - w.startCpu;
        if (c == w.current && cpu > STUCK_CPU_S * 1_000_000_000L) {
          StringBuilder sb = new StringBuilder();
          for (StackTraceElement e : w.getStackTrace()) sb.append("  at ").append(e).append('\n');
          rep.violation(
              "a call did not return after " + STUCK_CPU_S + " s of processor time",
              "case: " + phase + "/" + c + "\n" + sb);
          return;
        }
      }
      if ((System.nanoTime() - lastProgress) / 1e9 > 420) {
        rep.inconclusive = "no progress for 420 s in " + phase;
        return;
      }
    }
    rep.count("cases " + phase, done.get());
    if (capped.get()) {
      rep.extra("stopped_early_" + phase, "time cap of " + capSeconds + " s");
    }
  }

  private static void one(Report rep, String phase, long base, long i, Case body) {
    try {
      body.run(new Rng(Rng.mix(base, i)), i);
    } catch (Ref.Unspecified t) {
      rep.count("cases given up, outcome left open", 1);
    } catch (Throwable t) {
      // Calls that may fail are wrapped, so either a call failed that must not, or the harness did.
      if (Lib.fromLibrary(t)) {
        rep.violation("unexpected failure of the library", "case: " + phase + "/" + i + "\n" + Report.trace(t));
        return;
      }
      synchronized (rep) {
        if (rep.inconclusive == null) {
          t.printStackTrace();
          rep.inconclusive = "harness error in case " + phase + "/" + i + ": " + t;
        }
      }
    }
  }
}
