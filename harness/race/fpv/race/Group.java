package fpv.race;

import fpv.Rng;
import java.lang.management.ManagementFactory;
import java.lang.management.ThreadMXBean;
import java.util.concurrent.locks.LockSupport;

/**
 * Threads of which one at a time may step through the library. The holder of the turn gives it away at
 * points chosen in advance (or at random). A holder that makes no step for a while loses the turn.
 */
public final class Group {
  public static final int SWITCHES = 0; // a few chosen points among all
  public static final int HOT = 1; // a few chosen points among steps on possibly shared state
  public static final int RANDOM = 2; // any point with some probability
  public static final int FREE = 3; // real parallelism with random delays
  public static final int ROUND = 4; // after every hot step
  public static final int NEAR = 5; // around accesses to what threads were seen to share and change

  private final RaceThread[] threads;
  private final Scenario[] work = new Scenario[1];
  private final String[] problems;
  private final boolean[] finished;
  private volatile int turn = -1;
  private volatile int epoch;
  private volatile int active;
  private volatile int doneCount;
  private volatile long steps;
  private int mode;
  private Rng rng;
  private long[] at;
  private int next;
  private long hotSteps;
  private int chance;
  private long hash;
  private int switches;
  private int steals;
  private int lastSite;
  private final Object lock = new Object();
  /** Pairs of sites between which control changed. */
  public final java.util.Set<Long> pairs = new java.util.HashSet<>();

  /** Who used which object in this run: the thread (-2 for several) and whether it was changed. */
  private final java.util.IdentityHashMap<Object, int[]> used = new java.util.IdentityHashMap<>();
  /** Fields and arrays that were changed while several threads used them, in this batch. */
  private final java.util.Set<Integer> contended = new java.util.HashSet<>();

  public Group(int max) {
    threads = new RaceThread[max];
    problems = new String[max];
    finished = new boolean[max];
    for (int i = 0; i < max; i++) {
      threads[i] = new RaceThread(this, i);
      threads[i].start();
    }
  }

  public static final class Result {
    public String problem;
    public String hang;
    public long steps;
    public long hotSteps;
    public int switches;
    public int steals;
    public long hash;
  }

  void loop(RaceThread me) {
    int seen = 0;
    for (; ; ) {
      while (epoch == seen) LockSupport.park(this);
      seen = epoch;
      if (me.idx >= active) continue;
      String p;
      try {
        if (mode != FREE) await(me);
        p = work[0].run(me.idx);
      } catch (Throwable t) {
        p = Call.show(null, t);
      }
      synchronized (lock) {
        problems[me.idx] = p;
        finished[me.idx] = true;
        doneCount++;
        if (mode != FREE && turn == me.idx) give(pickOther(me.idx));
        lock.notifyAll();
      }
    }
  }

  private void await(RaceThread me) {
    int spins = 0;
    while (turn != me.idx) {
      if (++spins < 200) Thread.onSpinWait();
      else LockSupport.park(this);
    }
  }

  private void give(int to) {
    turn = to;
    if (to >= 0) LockSupport.unpark(threads[to]);
  }

  private int pickOther(int me) {
    int n = active;
    int k = n <= 1 ? 0 : 1 + rng.below(n - 1);
    for (int j = 0; j < n; j++) {
      int c = (me + k + j) % n;
      if (c != me && !finished[c]) return c;
    }
    return -1;
  }

  /** Forgets what was shared and changed. */
  public void fresh() {
    contended.clear();
  }

  public int contended() {
    return contended.size();
  }

  /** An access is about to happen. */
  void touch(RaceThread me, Object o, int key, boolean write) {
    if (mode == FREE) return;
    if (turn != me.idx) await(me);
    boolean both;
    if (o == null) {
      both = write;
    } else {
      int[] u = used.get(o);
      if (u == null) {
        if (used.size() > 20_000) return;
        used.put(o, u = new int[] {me.idx, 0});
      }
      if (u[0] != me.idx) u[0] = -2;
      if (write) u[1] = 1;
      both = u[0] == -2 && u[1] == 1;
    }
    if (both) contended.add(key);
    if (both || contended.contains(key)) me.near = 5;
  }

  /** A step of the thread in the library. */
  void hit(RaceThread me, int site) {
    if (mode == FREE) {
      long h = Rng.mix(site, System.nanoTime());
      if ((h & 255) == 0) {
        if ((h & 256) == 0) Thread.yield();
        else for (int i = 0; i < 300; i++) Thread.onSpinWait();
      }
      return;
    }
    if (turn != me.idx) await(me);
    long s = ++steps;
    boolean hot = (site & 1) != 0;
    if (hot) hotSteps++;
    boolean go;
    switch (mode) {
      case SWITCHES:
        go = next < at.length && s >= at[next];
        break;
      case HOT:
        go = hot && next < at.length && hotSteps >= at[next];
        break;
      case NEAR:
        go = me.near > 0 && next < 4000 && rng.below(me.near == 5 ? 2 : 4) == 0;
        if (me.near > 0) me.near--;
        break;
      case ROUND:
        go = hot && next < 4000;
        break;
      default:
        go = rng.below(chance) == 0;
    }
    if (!go) return;
    next++;
    int to;
    synchronized (lock) {
      to = pickOther(me.idx);
      if (to < 0) return;
      switches++;
      hash = Rng.mix(hash, Rng.mix(me.idx * 31L + to, Rng.mix(site, s)));
      if (pairs.size() < 2_000_000) pairs.add(((long) lastSite << 32) | site);
      lastSite = site;
      give(to);
    }
    await(me);
  }

  private long cpu(int n) {
    long c = 0;
    for (int i = 0; i < n; i++) c += Math.max(0, MX.getThreadCpuTime(threads[i].getId()));
    return c;
  }

  private static final ThreadMXBean MX = ManagementFactory.getThreadMXBean();

  public Result run(Scenario s, int n, int mode, long seed, int k, long expectSteps, long expectHot) throws InterruptedException {
    this.mode = mode;
    work[0] = s;
    rng = new Rng(seed);
    steps = 0;
    hotSteps = 0;
    switches = 0;
    steals = 0;
    next = 0;
    hash = Rng.mix(n, mode);
    used.clear();
    lastSite = 0;
    chance = 1 << (2 + rng.below(8));
    long range = mode == HOT ? expectHot : expectSteps;
    at = new long[k];
    for (int i = 0; i < k; i++) at[i] = 1 + Math.floorMod(rng.next(), Math.max(1, i == 0 ? range / 2 : range));
    java.util.Arrays.sort(at);
    for (int i = 0; i < threads.length; i++) {
      problems[i] = null;
      finished[i] = false;
      threads[i].near = 0;
    }
    doneCount = 0;
    active = n;
    turn = mode == FREE ? -1 : rng.below(n);
    epoch++;
    for (RaceThread t : threads) LockSupport.unpark(t);
    Result r = new Result();
    long lastSteps = -1;
    long polls = 0, stillPolls = 0, stillCpu = 0;
    long still = System.nanoTime();
    synchronized (lock) {
      while (doneCount < n) {
        lock.wait(25);
        if (doneCount >= n) break;
        int holder = turn;
        if (steps != lastSteps) {
          lastSteps = steps;
          still = System.nanoTime();
          stillPolls = polls;
          stillCpu = cpu(n);
          continue;
        }
        polls++;
        // a holder that waits for a lock or for another thread's class initialisation (which shows as
        // runnable) makes no step
        if (mode != FREE && holder >= 0 && !finished[holder]) {
          int to = pickOther(holder);
          if (to >= 0) {
            steals++;
            give(to);
          } else {
            LockSupport.unpark(threads[holder]);
          }
        }
        long idle = System.nanoTime() - still;
        if (idle > 2_000_000_000L) {
          long[] dead = MX.findDeadlockedThreads();
          boolean mine = false;
          if (dead != null) for (long d : dead) for (RaceThread t : threads) mine |= t.getId() == d;
          if (mine || idle > 60_000_000_000L) {
            // every thread had the turn many times, none moved and none computed
            boolean stuck = polls - stillPolls > 1000 && cpu(n) - stillCpu < 1_000_000_000L;
            StringBuilder sb = new StringBuilder(mine || stuck ? "deadlock" : "no progress");
            for (int i = 0; i < n; i++) {
              sb.append("\n thread ").append(i).append(' ').append(threads[i].getState());
              for (StackTraceElement e : threads[i].getStackTrace()) sb.append("\n    at ").append(e);
            }
            r.hang = sb.toString();
            return r;
          }
        }
      }
      for (int i = 0; i < n; i++) if (problems[i] != null && r.problem == null) r.problem = "thread " + i + ": " + problems[i];
    }
    r.steps = steps;
    r.hotSteps = hotSteps;
    r.switches = switches;
    r.steals = steals;
    r.hash = hash;
    return r;
  }

  /** Deadlocked for sure, as opposed to merely slow. */
  public static boolean certain(Result r) {
    return r.hang != null && r.hang.startsWith("deadlock");
  }
}
