package fpv;

import java.io.BufferedInputStream;
import java.io.DataInputStream;
import java.io.EOFException;
import java.io.File;
import java.io.FileInputStream;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;
import java.util.concurrent.ExecutorService;
import java.util.concurrent.Executors;
import java.util.concurrent.Future;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.atomic.AtomicInteger;

/** One workload in many virtual machines. */
public final class CheckC19 extends Check {
  private static final int[] JDKS = {8, 11, 17, 21, 25};
  private static final String[][] LOCALES = {
    {"-Duser.language=en", "-Duser.country=US"},
    {"-Duser.language=tr", "-Duser.country=TR"},
    {"-Duser.language=ar", "-Duser.country=EG"},
    {"-Duser.language=th", "-Duser.country=TH", "-Duser.variant=TH"},
    {"-Duser.language=hi", "-Duser.country=IN"},
    {"-Duser.language=de", "-Duser.country=DE"},
    {"-Duser.language=lt"},
    {"-Duser.language=fa", "-Duser.country=IR"},
    {"-Duser.language=az"},
    {"-Duser.language=ja", "-Duser.country=JP", "-Duser.variant=JP"}
  };
  private static final String[] ZONES = {"UTC", "Asia/Kathmandu", "America/New_York", "Pacific/Apia"};
  private static final String[] ENCODINGS = {"UTF-8", "ISO-8859-1", "US-ASCII", "UTF-16BE", "Cp1047", "GBK"};
  private static final String[][] MODES = {
    {},
    {"-Xint"},
    {"-XX:TieredStopAtLevel=1"},
    {"-Xcomp", "-XX:CompileCommand=quiet", "-XX:CompileCommand=compileonly,io/fastprintf/*::*"},
    {"-XX:-TieredCompilation"},
    {"-XX:-UseCompressedOops"},
    {"-XX:-DoEscapeAnalysis", "-XX:-EliminateAllocations"}
  };

  @Override
  public String level() {
    return "exploration";
  }

  @Override
  public String rule() {
    return "the same generated calls run in one virtual machine per configuration (Java release, default"
        + " locale, zone, file encoding, line separator, compilation mode, string layout) and are compared"
        + " with the reference and with each other; one evaluation = one call in one machine; distinct by"
        + " format and arguments; date-times and the platform's own texts left out";
  }

  private static final class Config {
    final String name;
    final int jdk;
    final List<String> opts = new ArrayList<>();
    String mode = "plain";
    long cases;

    Config(String name, int jdk) {
      this.name = name;
      this.jdk = jdk;
    }
  }

  private static String home(int jdk) {
    return "/usr/lib/jvm/java-" + jdk + "-openjdk-amd64";
  }

  private Config config(int jdk, int locale, int zone, int enc, int mode, long cases) {
    StringBuilder n = new StringBuilder("java ").append(jdk);
    Config c = new Config("", jdk);
    List<String> o = c.opts;
    o.add("-ea");
    o.add("-Xmx1g");
    o.add("-Xss4m");
    o.add("-XX:+UseSerialGC");
    o.addAll(Arrays.asList(LOCALES[locale]));
    o.add("-Duser.timezone=" + ZONES[zone]);
    o.add("-Dfile.encoding=" + ENCODINGS[enc]);
    if (enc % 2 == 1) o.add("-Dline.separator=\r\n");
    o.addAll(Arrays.asList(MODES[mode]));
    if (jdk > 8 && (locale + mode) % 3 == 2) o.add("-XX:-CompactStrings");
    for (String s : o.subList(4, o.size())) n.append(' ').append(s.replace("\r\n", "CRLF"));
    Config d = new Config(n.toString(), jdk);
    d.opts.addAll(o);
    d.cases = mode == 1 ? cases / 5 : cases;
    return d;
  }

  @Override
  public void run() throws Throwable {
    boolean thorough = rep.tier.equals("thorough");
    long cases = (long) (30_000 * (thorough ? Math.min(scale, 10) : scale));
    List<Config> cs = new ArrayList<>();
    Rng r = new Rng(Rng.mix(rep.seed, Rng.hash("C19/configs")));
    int per = thorough ? 30 : 4;
    int k = 0;
    for (int j : JDKS) {
      if (!new File(home(j) + "/bin/java").exists()) {
        rep.count("releases not installed");
        continue;
      }
      for (int n = 0; n < per; n++, k++) {
        // every release sees a locale with foreign digits or letters and a file encoding that does not extend ASCII;
        // every mode is seen by some release
        int loc = n == 0 ? 1 : n == 1 ? 2 + k % 3 : r.below(LOCALES.length);
        Config c = config(j, loc, r.below(ZONES.length), n == 0 ? 0 : n == 1 ? 3 + k % 2 : r.below(ENCODINGS.length), n == 0 ? 0 : (k % (MODES.length - 1)) + 1, cases);
        if (n == 3) c.mode = "hop";
        cs.add(c);
      }
    }
    // what the calls have to give
    int m = (int) cases;
    long[] in = new long[m], out = new long[m];
    boolean[] fixed = new boolean[m];
    Runner.run(
        rep,
        "reference",
        m,
        cap,
        (rr, i) -> {
          Child.Case c = Child.make(gen, rep.seed, i);
          String s = Child.outcome(c, (int) (i % 3));
          in[(int) i] = c.hash();
          out[(int) i] = Rng.hash(s);
          String want = null;
          try {
            Program.Expect e = Program.eval(c.items, c.args);
            want = e.refused ? "R" : "T" + e.text;
            fixed[(int) i] = true;
          } catch (Ref.Unspecified e) {
            // only compared between machines
          }
          rep.judged();
          if (want != null && !want.equals(s)) {
            fail("reference", i, "wrong result here", Lib.show(c.fmt, c.args) + "\nexpected " + Report.quote(want) + "\nactual " + Report.quote(s));
          }
          String odd = ascii(c, s);
          if (odd != null) fail("reference", i, odd, Lib.show(c.fmt, c.args) + "\nactual " + Report.quote(s));
          rep.distinct(in[(int) i]);
          if (rep.wantsSamples()) rep.sample(Lib.show(c.fmt, c.args).replace("\n", " "));
        });
    if (rep.tooMany() || System.getenv("VERIF_CASE") != null && !System.getenv("VERIF_CASE").isEmpty()) return;
    Map<String, Long> seen = new TreeMap<>();
    ExecutorService pool = Executors.newFixedThreadPool(7);
    List<Future<?>> fs = new ArrayList<>();
    AtomicInteger machines = new AtomicInteger();
    for (Config c : cs) {
      fs.add(
          pool.submit(
              () -> {
                try {
                  long[] n = child(c, in, out);
                  synchronized (seen) {
                    seen.put(c.name + " " + c.mode, n[0]);
                  }
                  machines.incrementAndGet();
                  rep.count("calls compared in other machines", n[0]);
                  rep.count("calls whose input differed", n[1]);
                } catch (Throwable t) {
                  synchronized (rep) {
                    rep.inconclusive = "machine " + c.name + ": " + t;
                  }
                }
              }));
    }
    for (Future<?> f : fs) f.get();
    pool.shutdown();
    rep.extra("machines", machines.get());
    StringBuilder sb = new StringBuilder();
    for (Map.Entry<String, Long> e : seen.entrySet()) sb.append(e.getKey()).append(": ").append(e.getValue()).append("; ");
    rep.extra("configurations", sb.toString());
    if (machines.get() == 0 && rep.inconclusive == null) rep.inconclusive = "no machine ran";
  }

  /** Numbers are written in ASCII. */
  private static String ascii(Child.Case c, String s) {
    if (s.charAt(0) != 'T') return null;
    for (Object o : c.items) {
      if (!(o instanceof Spec)) return null;
      char conv = ((Spec) o).lower();
      if (conv == 's' || conv == 'c') return null;
    }
    for (int i = 1; i < s.length(); i++) if (s.charAt(i) > 126 || s.charAt(i) < 32) return "a number with character " + (int) s.charAt(i);
    return null;
  }

  private Process start(Config c, long first, long last, String mode, File res, File err) throws Exception {
    List<String> cmd = new ArrayList<>();
    cmd.add(home(c.jdk) + "/bin/java");
    cmd.addAll(c.opts);
    cmd.add("-cp");
    cmd.add(System.getProperty("fpv.lib") + File.pathSeparator + System.getProperty("fpv.h"));
    cmd.add("fpv.Child");
    cmd.add(rep.base);
    cmd.add(rep.source);
    cmd.add(Long.toString(rep.seed));
    cmd.add(Long.toString(first));
    cmd.add(Long.toString(last));
    cmd.add(mode);
    cmd.add(res.getPath());
    ProcessBuilder b = new ProcessBuilder(cmd);
    b.redirectErrorStream(true);
    b.redirectOutput(err);
    b.environment().remove("JAVA_TOOL_OPTIONS");
    return b.start();
  }

  /** Calls compared, calls whose generated input was different. */
  private long[] child(Config c, long[] in, long[] out) throws Exception {
    File err = File.createTempFile("child", ".err", new File(System.getProperty("fpv.work")));
    File res = File.createTempFile("child", ".out", err.getParentFile());
    int n = (int) Math.min(in.length, c.cases);
    Process p = start(c, 0, n, c.mode, res, err);
    p.getOutputStream().close();
    // a generous end for a machine that hangs; it makes the run inconclusive
    if (!p.waitFor(500 + (long) (scale * 20), TimeUnit.SECONDS)) {
      p.destroyForcibly();
      throw new IllegalStateException("did not finish");
    }
    long same = 0, differed = 0;
    int bad = 0;
    int i = 0;
    try (DataInputStream d = new DataInputStream(new BufferedInputStream(new FileInputStream(res), 1 << 16))) {
      for (; i < n; i++) {
        long a = d.readLong(), b = d.readLong();
        if (a != in[i]) {
          differed++;
          continue;
        }
        same++;
        rep.judged();
        if (b != out[i] && bad++ < 2) {
          String there = show(c, i, err);
          Child.Case k = Child.make(gen, rep.seed, i);
          fail(
              "reference",
              i,
              "another result in another machine",
              "machine: " + c.name + " " + c.mode + "\nthere: " + there + "\nhere: " + Report.quote(Child.outcome(k, i % 3)));
        }
      }
    } catch (EOFException e) {
      throw new IllegalStateException("ended after " + i + " of " + n + " calls: " + tail(err));
    }
    res.delete();
    err.delete();
    if (differed * 10 > n) throw new IllegalStateException("generated other inputs for " + differed + " of " + n);
    return new long[] {same, differed};
  }

  private String show(Config c, int i, File err) {
    try {
      // a changed default locale is only reproduced from the start of its stretch
      File res = File.createTempFile("show", ".out", err.getParentFile());
      Process p = start(c, i, i + 1, "show", res, err);
      p.waitFor(100, TimeUnit.SECONDS);
      p.destroyForcibly();
      DataInputStream d = new DataInputStream(new FileInputStream(res));
      d.readLong();
      d.readLong();
      byte[] b = new byte[d.readInt()];
      d.readFully(b);
      d.close();
      return new String(b, "UTF-8");
    } catch (Exception e) {
      return "could not be shown: " + e;
    }
  }

  private static String tail(File f) {
    try {
      String s = new String(java.nio.file.Files.readAllBytes(f.toPath()), "ISO-8859-1");
      return s.length() > 1500 ? s.substring(0, 1500) : s;
    } catch (Exception e) {
      return "" + e;
    }
  }
}
