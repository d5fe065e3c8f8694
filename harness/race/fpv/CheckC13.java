package fpv;

import fpv.race.Call;
import fpv.race.Group;
import fpv.race.Loader;
import fpv.race.Plan;
import fpv.race.Scenario;
import fpv.race.Sched;
import java.util.ArrayList;
import java.util.HashSet;
import java.util.List;
import java.util.Set;
import java.util.concurrent.atomic.AtomicLong;

/** Controlled and free interleavings over shared formatters, argument lists and texts. */
public final class CheckC13 extends Check {
  private static final int KINDS = 9;
  private static final String CONV = "diuoxXfFeEgGaAsSctTpdxsfegS";
  private static final String FOCUS = "tdefsgtxauSTcEfoGtpiXAF";

  @Override
  public String level() {
    return "exploration";
  }

  @Override
  public String rule() {
    return "library code instrumented with a scheduling point before every field access, array access and"
        + " outgoing call; runs of 2 or 3 threads on freshly made shared objects under schedules with 1..4"
        + " chosen preemptions, random preemption, preemption at every step on possibly shared state, preemption around"
        + " accesses to fields and arrays that earlier runs of the batch saw shared and changed, and"
        + " free running; one evaluation = one run; distinct by schedule (switch sites and steps) and work";
  }

  @Override
  public void run() throws Throwable {
    Loader.init();
    long batches = Math.max(8, (long) (120 * scale));
    AtomicLong next = new AtomicLong();
    long base = Rng.mix(rep.seed, Rng.hash("C13/schedules"));
    String only = System.getenv("VERIF_CASE");
    long t0 = System.nanoTime();
    int par = 4;
    Thread[] ws = new Thread[par];
    Set<Long> pairs = new HashSet<>();
    for (int w = 0; w < par; w++) {
      ws[w] =
          new Thread(
              () -> {
                Group g = new Group(6);
                try {
                  for (; ; ) {
                    long b = next.getAndIncrement();
                    if (b >= batches || rep.tooMany() || rep.inconclusive != null) break;
                    if ((System.nanoTime() - t0) / 1e9 > cap) {
                      rep.extra("stopped_early", "time cap of " + cap + " s");
                      break;
                    }
                    if (only != null && !only.isEmpty() && !only.equals("schedules/" + b)) continue;
                    g = batch(g, new Rng(Rng.mix(base, b)), b);
                    rep.count("private copies of the library");
                  }
                } catch (Throwable t) {
                  t.printStackTrace();
                  if (Lib.fromLibrary(t)) rep.violation("unexpected failure of the library", t.toString());
                  else rep.inconclusive = "harness failed: " + t;
                }
                synchronized (pairs) {
                  pairs.addAll(g.pairs);
                }
              });
      ws[w].start();
    }
    for (Thread t : ws) t.join();
    rep.extra("scheduling_points_in_the_library", Sched.sites());
    rep.extra("distinct_pairs_of_switch_sites", pairs.size());
  }

  /** One private copy of the library, several pieces of work, several schedules each. */
  private Group batch(Group g, Rng r, long b) throws Exception {
    Loader l = new Loader();
    // sometimes class initialisation is part of the race
    if (!r.chance(1, 8)) l.initialise();
    Scenario s = l.scenario();
    g.fresh();
    long expSteps = 4000, expHot = 500;
    int works = 18;
    for (int w = 0; w < works; w++) {
      Plan p = w % 2 == 0 ? plan(r, (int) ((b + w) % KINDS)) : focused(r, (b * works + w) / 2);
      long ph = hash(p);
      int runs = 16;
      for (int k = 0; k < runs; k++) {
        int mode;
        if (k == 0 && w > 0) mode = Group.ROUND;
        else if (k < 5) mode = Group.HOT;
        else if (k < 8) mode = Group.SWITCHES;
        else if (k < 10) mode = Group.RANDOM;
        else if (k < 13) mode = g.contended() > 0 ? Group.NEAR : k == 10 ? Group.HOT : Group.SWITCHES;
        else mode = Group.FREE;
        s.prepare(p);
        Group.Result res = g.run(s, p.threads, mode, r.next(), 1 + r.below(4), expSteps, expHot);
        rep.judged();
        rep.count(mode == Group.FREE ? "free runs" : "scheduled runs");
        rep.count("preemptions", res.switches);
        rep.count("scheduled steps", res.steps);
        if (res.steals > 0) rep.count("turns taken from blocked threads", res.steals);
        if (res.hang != null) {
          if (Group.certain(res)) fail("schedules", b, "deadlock", p.describe() + "\n" + res.hang);
          else rep.inconclusive = "a run made no progress: " + res.hang;
          return new Group(6);
        }
        if (mode == Group.NEAR) rep.count("runs switching near shared and changed state");
        if (mode != Group.FREE && res.switches > 0) rep.distinct(Rng.mix(ph, res.hash));
        if (mode != Group.FREE) {
          expSteps = Math.max(200, res.steps);
          expHot = Math.max(50, res.hotSteps);
        }
        if (res.problem != null) {
          fail(
              "schedules",
              b,
              "a call gave another result beside other threads",
              p.describe() + "\nwork " + w + " run " + k + " mode " + mode + ", " + res.switches + " preemptions\n" + res.problem);
          return g;
        }
        if (rep.wantsSamples() && k == 3) {
          rep.sample("kind " + p.kind + " threads " + p.threads + " steps " + res.steps + " preemptions " + res.switches + " format " + p.calls[0][0].fmt);
        }
      }
    }
    return g;
  }

  private static long hash(Plan p) {
    long h = Rng.mix(p.kind * 100 + p.variant, p.salt);
    for (Call[] cs : p.calls) for (Call c : cs) h = Rng.mix(h, Rng.hash(c.fmt + c.want));
    return h;
  }

  private Plan plan(Rng r, int kind) {
    Plan p = new Plan();
    p.kind = kind;
    p.variant = r.below(4);
    p.threads = r.chance(1, 3) ? 3 : 2;
    p.salt = r.next();
    p.texts = new String[] {Gen.string(r, r.range(2, 60), 1), Gen.string(r, r.range(2, 30), r.below(7)), Gen.string(r, r.range(1, 20), 1)};
    p.calls = new Call[p.threads][];
    Call first = null;
    List<Object> firstItems = null;
    boolean sameFormat = r.chance(3, 4);
    boolean sameCall = r.chance(1, 3);
    for (int t = 0; t < p.threads; t++) {
      int n = r.range(1, 2);
      List<Call> cs = new ArrayList<>();
      for (int k = 0; k < n; k++) {
        Call c;
        if (first != null && sameCall && k == 0) {
          c = first;
        } else {
          List<Object> items = firstItems != null && sameFormat ? firstItems : items(r);
          c = call(r, items);
          if (firstItems == null) {
            firstItems = items;
            first = c;
          }
        }
        cs.add(c);
      }
      p.calls[t] = cs.toArray(new Call[0]);
    }
    return p;
  }

  /** All threads use one directive on different values of one type. */
  private Plan focused(Rng r, long n) {
    Plan p = new Plan();
    p.kind = new int[] {0, 1, 2, 3, 8}[r.below(5)];
    p.variant = r.below(4);
    p.threads = r.chance(1, 4) ? 3 : 2;
    p.salt = r.next();
    p.texts = new String[] {"a", "b", "c"};
    List<Object> items = new ArrayList<>();
    items.add(spec(r, FOCUS.charAt((int) (n % FOCUS.length()))));
    p.calls = new Call[p.threads][];
    Call first = call(r, items);
    boolean sameFormat = r.chance(3, 4);
    for (int t = 0; t < p.threads; t++) {
      Call c = first;
      for (int tries = 0; t > 0 && tries < 60; tries++) {
        List<Object> its = items;
        if (!sameFormat) {
          its = new ArrayList<>();
          its.add(spec(r, ((Spec) items.get(0)).conv));
        }
        Call d = call(r, its);
        if (d.fmt.endsWith("p") && tries < 50 && alike(d, first)) continue; // names of classes
        if (c != first && !d.fmt.endsWith("p") && !alike(d, first)) continue;
        c = d;
        if ((alike(c, first) || c.fmt.endsWith("p")) && !java.util.Arrays.equals(c.vals, first.vals)) break;
      }
      p.calls[t] = new Call[] {c};
    }
    return p;
  }

  private static boolean alike(Call a, Call b) {
    if (a.vals.length == 0 || b.vals.length == 0) return false;
    Object x = a.vals[a.vals.length - 1], y = b.vals[b.vals.length - 1];
    return x == null ? y == null : y != null && x.getClass() == y.getClass();
  }

  private Spec spec(Rng r, char conv) {
    Spec s = gen.spec(r, conv);
    if (s.width > 60) s.width = 20;
    if (s.prec > 60) s.prec = 12;
    if (s.conv == 'g' || s.conv == 'G') s.alt = false;
    if (s.lower() == 't' && r.bool()) s.pattern = "uuuu-MM-dd";
    if (r.chance(1, 8)) s.width = Spec.STAR;
    if (r.chance(1, 8)) s.prec = Spec.STAR;
    return s;
  }

  private List<Object> items(Rng r) {
    List<Object> items = new ArrayList<>();
    int n = r.range(1, 4);
    for (int k = 0; k < n; k++) {
      if (r.bool()) items.add(Gen.string(r, r.range(1, 8), 1) + "|");
      items.add(spec(r, r.pick(CONV)));
      items.add(" ");
    }
    return items;
  }

  private Call call(Rng r, List<Object> items) {
    List<Arg> args;
    Program.Expect e;
    for (; ; ) {
      args = new ArrayList<>();
      for (Arg a : Program.fill(gen, r, items, 40)) {
        Object v = a.v;
        // calendars compute lazily inside themselves: not shareable
        if (v instanceof java.util.Calendar) v = ((java.util.Calendar) v).getTime();
        if (v instanceof String && r.chance(1, 3)) v = new fpv.race.Pausing((String) v);
        args.add(new Arg(v, a.prim));
      }
      if (r.chance(1, 12) && !args.isEmpty()) args.remove(args.size() - 1);
      try {
        e = Program.eval(items, args);
        break;
      } catch (Ref.Unspecified x) {
        // other arguments
      }
    }
    Call c = new Call();
    c.fmt = Program.format(items);
    c.vals = Lib.values(args);
    c.prim = new boolean[args.size()];
    for (int k = 0; k < c.prim.length; k++) c.prim[k] = args.get(k).prim;
    c.want = e.text;
    c.refused = e.refused;
    return c;
  }
}
