package fpv;

import java.io.BufferedReader;
import java.io.BufferedWriter;
import java.io.File;
import java.io.InputStreamReader;
import java.io.OutputStreamWriter;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.util.ArrayList;
import java.util.List;

/** Integer conversions against the reference and against the C library. */
public final class CheckC01 extends Check {
  @Override
  public String level() {
    return "exploration";
  }

  @Override
  public String rule() {
    return "random and small-exhaustive (conversion, flags, width, precision, integer argument)"
        + " cases; non-trivial = a flag, width or precision is present; distinct by directive text and"
        + " typed value";
  }

  @Override
  public void run() throws Throwable {
    cases(
        "random",
        4_000_000,
        (r, i) -> {
          Object v = gen.integer(r);
          Spec s = gen.spec(r, r.pick(Gen.INT_CONV));
          gen.aimWidth(r, s, v);
          if (!Directive.run(this, "random", i, r, s, v)) return;
          note(s, v);
        });
    // Exhaustive corner: all flag subsets x small widths x small precisions x chosen values.
    Object[] vals = corner();
    long n = 6L * 32 * 8 * 6 * vals.length;
    cases(
        "corner",
        n,
        (r, i) -> {
          long k = i % n;
          Spec s = new Spec(Gen.INT_CONV.charAt((int) (k % 6)));
          k /= 6;
          int f = (int) (k % 32);
          k /= 32;
          s.minus = (f & 1) != 0;
          s.plus = (f & 2) != 0;
          s.space = (f & 4) != 0;
          s.alt = (f & 8) != 0;
          s.zero = (f & 16) != 0;
          s.width = new int[] {-1, 1, 2, 3, 4, 5, 8, 12}[(int) (k % 8)];
          k /= 8;
          s.prec = new int[] {-1, 0, 1, 2, 5, 9}[(int) (k % 6)];
          k /= 6;
          Object v = vals[(int) k];
          s.order = (int) r.next();
          Directive.judge(this, "corner", i, s, v, s.text(), Lib.list(Arg.of(v)), "", "", 99);
          note(s, v);
        });
    cases(
        "sizes",
        400,
        (r, i) -> {
          Object v = Gen.hugeInteger(r);
          Spec s = gen.spec(r, r.pick(Gen.INT_CONV));
          gen.aimWidth(r, s, v);
          if (Directive.run(this, "sizes", i, r, s, v)) note(s, v);
        });
    glibc();
  }

  private void note(Spec s, Object v) {
    if (s.width >= 0 || s.prec >= 0 || s.alt || s.zero || s.plus || s.space || s.minus) {
      rep.distinct(Directive.hash(s, v));
      if (rep.wantsSamples()) rep.sample(s.text() + " of " + Arg.describe(v));
    }
  }

  static Object[] corner() {
    List<Object> l = new ArrayList<>();
    for (int x : new int[] {0, 1, -1, 7, 8, -8, 10, 127, -128}) {
      l.add(x);
      l.add((long) x);
      l.add((short) x);
      l.add((byte) x);
      l.add(BigInteger.valueOf(x));
    }
    l.add(Integer.MIN_VALUE);
    l.add(Long.MIN_VALUE);
    l.add(Short.MIN_VALUE);
    l.add('A');
    l.add(true);
    l.add(false);
    return l.toArray();
  }

  /** The reference itself is held against the C library, so that the oracle is not self-made. */
  private void glibc() throws Exception {
    String bin = System.getProperty("fpv.glibc");
    if (bin == null || !new File(bin).canExecute()) {
      rep.assume("no C compiler available: reference not re-checked against the C library");
      return;
    }
    Process p = new ProcessBuilder(bin).redirectErrorStream(true).start();
    List<String> want = new ArrayList<>();
    List<String> desc = new ArrayList<>();
    Rng r = new Rng(Rng.mix(rep.seed, 77));
    int n = (int) (60000 * Math.min(scale, 10));
    StringBuilder in = new StringBuilder();
    for (int k = 0; k < n; k++) {
      int bits = new int[] {8, 16, 32, 64}[r.below(4)];
      long x = gen.int64(r);
      Object v;
      if (bits == 8) v = (byte) x;
      else if (bits == 16) v = (short) x;
      else if (bits == 32) v = (int) x;
      else v = x;
      Spec s = gen.spec(r, r.pick(Gen.INT_CONV));
      gen.aimWidth(r, s, v);
      if (s.width > 3000 || s.prec > 3000) continue;
      String lm = bits == 8 ? "hh" : bits == 16 ? "h" : bits == 32 ? "" : "l";
      String t = s.text();
      in.append(bits)
          .append('\t')
          .append(((Number) v).longValue())
          .append('\t')
          .append(t, 0, t.length() - 1)
          .append(lm)
          .append(s.conv)
          .append('\n');
      want.add(Ref.render(s, v));
      desc.add(t + " of " + v + " (" + bits + " bits)");
    }
    Thread w =
        new Thread(
            () -> {
              try (BufferedWriter o =
                  new BufferedWriter(
                      new OutputStreamWriter(p.getOutputStream(), StandardCharsets.US_ASCII))) {
                o.write(in.toString());
              } catch (Exception e) {
                // the reader notices
              }
            });
    w.start();
    int k = 0;
    int bad = 0;
    try (BufferedReader o =
        new BufferedReader(new InputStreamReader(p.getInputStream(), StandardCharsets.US_ASCII))) {
      String line;
      while ((line = o.readLine()) != null && k < want.size()) {
        String got = line.substring(1, line.length() - 1);
        if (!got.equals(want.get(k))) {
          if (bad++ < 5) {
            System.err.println("oracle disagrees: " + desc.get(k) + " C=[" + got + "] ref=[" + want.get(k) + "]");
          }
        }
        k++;
      }
    }
    p.waitFor();
    rep.extra("reference_cross_checked_against_c_library", k);
    if (bad > 0 || k != want.size()) {
      rep.inconclusive = "the reference disagrees with the C library on " + bad + " of " + k;
    }
  }
}
