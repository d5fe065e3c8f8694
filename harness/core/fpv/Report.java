package fpv;

import java.io.IOException;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Path;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.Collections;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;
import java.util.concurrent.ConcurrentHashMap;
import java.util.concurrent.atomic.AtomicLong;
import java.util.concurrent.atomic.LongAdder;

/** Collects what one run observed; writes evidence and replay files. */
public final class Report {
  public final String property;
  public final String tier;
  public final long seed;
  public final String level;
  public final boolean thorough;
  private static final int MAX_SHOWN = 5;
  private final long start = System.nanoTime();

  public final LongAdder evaluations = new LongAdder();
  private final Map<String, LongAdder> counters = new ConcurrentHashMap<>();
  private final List<String> samples = Collections.synchronizedList(new ArrayList<String>());
  private final List<String> assumptions = Collections.synchronizedList(new ArrayList<String>());
  private final Map<String, Object> extra = Collections.synchronizedMap(new LinkedHashMap<>());
  public final AtomicLong violations = new AtomicLong();
  public volatile String inconclusive;
  public String rule = "";
  private final DistinctSet distinct = new DistinctSet();
  public final String base;
  public String source;

  public Report(String property, String level, String tier, long seed, String base) {
    this.property = property;
    this.level = level;
    this.tier = tier;
    this.thorough = tier.equals("thorough");
    this.seed = seed;
    this.base = base;
  }

  public void count(String name) {
    count(name, 1);
  }

  public void count(String name, long n) {
    LongAdder a = counters.get(name);
    if (a == null) {
      counters.putIfAbsent(name, new LongAdder());
      a = counters.get(name);
    }
    a.add(n);
  }

  public long counter(String name) {
    LongAdder a = counters.get(name);
    return a == null ? 0 : a.sum();
  }

  /** One decision of an oracle. */
  public void judged() {
    evaluations.increment();
  }

  public void distinct(long h) {
    distinct.add(h);
  }

  public long distinctSize() {
    return distinct.size();
  }

  public void sample(String s) {
    if (samples.size() < 8) samples.add(s.length() > 400 ? s.substring(0, 400) + "..." : s);
  }

  public boolean wantsSamples() {
    return samples.size() < 8;
  }

  public void assume(String s) {
    if (!assumptions.contains(s)) assumptions.add(s);
  }

  public void extra(String k, Object v) {
    extra.put(k, v);
  }

  /** Records a violation; the first ones are printed and written out. */
  public void violation(String what, String detail) {
    long n = violations.incrementAndGet();
    if (n > MAX_SHOWN) return;
    String body =
        "property: "
            + property
            + "\nseed: "
            + seed
            + "\ntier: "
            + tier
            + "\nwhat: "
            + what
            + "\n"
            + printable(detail)
            + "\n";
    Path p = Paths.get(base, "replays", property + "-" + n + ".txt");
    try {
      Files.createDirectories(p.getParent());
      Files.write(p, body.getBytes(StandardCharsets.UTF_8));
    } catch (IOException e) {
      System.err.println("cannot write replay: " + e);
    }
    synchronized (System.out) {
      System.out.println("VIOLATION property=" + property + " replay=" + p);
      String d = printable(what + "\n" + detail);
      System.out.println(d.length() > 3000 ? d.substring(0, 3000) + "..." : d);
      System.out.flush();
    }
  }

  private static String printable(String s) {
    StringBuilder sb = new StringBuilder();
    for (char c : s.toCharArray()) {
      if (c == '\n' || c >= 32 && c < 127) sb.append(c);
      else sb.append(String.format("\\u%04x", (int) c));
    }
    return sb.toString();
  }

  public boolean tooMany() {
    return violations.get() >= MAX_SHOWN;
  }

  public double elapsed() {
    return (System.nanoTime() - start) / 1e9;
  }

  /** Writes the evidence file and returns the exit status. */
  public int finish() {
    if (violations.get() == 0 && inconclusive == null && evaluations.sum() == 0) {
      inconclusive = "nothing was observed";
    }
    StringBuilder sb = new StringBuilder();
    sb.append("{\n \"property\": ").append(json(property));
    sb.append(",\n \"tier\": ").append(json(tier));
    sb.append(",\n \"seed\": ").append(seed);
    sb.append(",\n \"level\": ").append(json(level));
    sb.append(",\n \"coverage\": {\n  \"evaluations\": ").append(evaluations.sum());
    sb.append(",\n  \"distinct_nontrivial\": ").append(distinct.size());
    if (distinct.capped()) sb.append(",\n  \"distinct_counting_stopped_at_capacity\": true");
    sb.append(",\n  \"rule\": ").append(json(rule));
    sb.append(",\n  \"samples\": ").append(json(samples));
    TreeMap<String, Object> ev = new TreeMap<>();
    for (Map.Entry<String, LongAdder> e : counters.entrySet()) ev.put(e.getKey(), e.getValue().sum());
    sb.append(",\n  \"observed\": ").append(json(ev));
    for (Map.Entry<String, Object> e : extra.entrySet()) {
      sb.append(",\n  ").append(json(e.getKey())).append(": ").append(json(e.getValue()));
    }
    sb.append("\n },\n \"wall_s\": ").append(Math.round(elapsed() * 100) / 100.0);
    if (!assumptions.isEmpty()) sb.append(",\n \"assumptions\": ").append(json(assumptions));
    sb.append(",\n \"violations\": ").append(violations.get()).append("\n}\n");
    try {
      Path p = Paths.get(base, "evidence", property + ".json");
      Files.createDirectories(p.getParent());
      Files.write(p, sb.toString().getBytes(StandardCharsets.UTF_8));
    } catch (IOException e) {
      System.err.println("cannot write evidence: " + e);
      return 2;
    }
    if (violations.get() > 0) {
      System.out.println(property + ": " + violations.get() + " violation(s)");
      return 1;
    }
    if (inconclusive != null) {
      System.out.println(property + ": INCONCLUSIVE: " + inconclusive);
      return 2;
    }
    System.out.println(
        property
            + ": held on "
            + evaluations.sum()
            + " evaluations ("
            + distinct.size()
            + " distinct non-trivial), "
            + Math.round(elapsed())
            + " s");
    return 0;
  }

  @SuppressWarnings("unchecked")
  static String json(Object o) {
    if (o == null) return "null";
    if (o instanceof Number || o instanceof Boolean) return o.toString();
    if (o instanceof Map) {
      StringBuilder sb = new StringBuilder("{");
      boolean first = true;
      for (Map.Entry<Object, Object> e : ((Map<Object, Object>) o).entrySet()) {
        if (!first) sb.append(", ");
        first = false;
        sb.append(json(e.getKey().toString())).append(": ").append(json(e.getValue()));
      }
      return sb.append('}').toString();
    }
    if (o instanceof Iterable) {
      StringBuilder sb = new StringBuilder("[");
      boolean first = true;
      for (Object e : (Iterable<Object>) o) {
        if (!first) sb.append(", ");
        first = false;
        sb.append(json(e));
      }
      return sb.append(']').toString();
    }
    return quote(o.toString());
  }

  /** ASCII-only JSON string; also used to show texts. */
  static String trace(Throwable t) {
    java.io.StringWriter w = new java.io.StringWriter();
    t.printStackTrace(new java.io.PrintWriter(w, true));
    String s = w.toString();
    return s.length() > 6000 ? s.substring(0, 6000) + " ..." : s;
  }

  public static String quote(CharSequence text) {
    String s = text.toString();
    StringBuilder sb = new StringBuilder("\"");
    int n = s.length();
    int shown = Math.min(n, 2000);
    for (int i = 0; i < shown; i++) {
      char c = s.charAt(i);
      if (c == '"' || c == '\\') sb.append('\\').append(c);
      else if (c >= 32 && c < 127) sb.append(c);
      else sb.append(String.format("\\u%04x", (int) c));
    }
    if (shown < n) sb.append("... (").append(n).append(" chars)");
    return sb.append('"').toString();
  }

  /** Striped open-addressing set of 64-bit hashes with a size cap. */
  static final class DistinctSet {
    private static final int STRIPES = 64;
    private static final int MAX = 1 << 20;
    private final long[][] t = new long[STRIPES][];
    private final int[] n = new int[STRIPES];
    private volatile boolean capped;

    DistinctSet() {
      for (int i = 0; i < STRIPES; i++) t[i] = new long[1 << 10];
    }

    void add(long h) {
      h = Rng.mix(h);
      if (h == 0) h = 1;
      int s = (int) (h >>> 58);
      synchronized (locks[s]) {
        long[] a = t[s];
        if (n[s] * 2 >= a.length) {
          if (a.length >= MAX) {
            capped = true;
            return;
          }
          long[] b = new long[a.length * 2];
          for (long x : a) if (x != 0) put(b, x);
          t[s] = a = b;
        }
        if (put(a, h)) n[s]++;
      }
    }

    private final Object[] locks = new Object[STRIPES];

    {
      for (int i = 0; i < STRIPES; i++) locks[i] = new Object();
    }

    private static boolean put(long[] a, long h) {
      int m = a.length - 1;
      int i = (int) h & m;
      while (a[i] != 0) {
        if (a[i] == h) return false;
        i = (i + 1) & m;
      }
      a[i] = h;
      return true;
    }

    boolean capped() {
      return capped;
    }

    long size() {
      long z = 0;
      for (int i = 0; i < STRIPES; i++) z += n[i];
      return z;
    }
  }
}
