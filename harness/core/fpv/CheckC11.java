package fpv;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import java.io.BufferedWriter;
import java.io.ByteArrayOutputStream;
import java.io.CharArrayWriter;
import java.io.FilterWriter;
import java.io.OutputStreamWriter;
import java.io.PrintStream;
import java.io.PrintWriter;
import java.io.StringWriter;
import java.io.Writer;
import java.nio.CharBuffer;
import java.nio.charset.StandardCharsets;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.LinkedList;
import java.util.List;

/** Entry points and destinations. */
public final class CheckC11 extends Check {
  @Override
  public String level() {
    return "exploration";
  }

  @Override
  public String rule() {
    return "random directive programs, each through every way of passing arguments, every formatter"
        + " variant and every destination kind, with prior content; non-trivial = non-empty output;"
        + " distinct by format and arguments";
  }

  @Override
  public void run() throws Throwable {
    cases("programs", 40_000, (r, i) -> one(r, i, Program.random(gen, r, 8, r.chance(1, 25) ? 5000 : 60, CheckC10.CONV)));
    // Single directives of growing text sizes: the copying strategy depends on them.
    cases(
        "sizes",
        1500,
        (r, i) -> {
          Program p = new Program();
          int k = (int) (i % 1500);
          int n = k < 1200 ? k : (k - 1200) * 230;
          Spec s = new Spec(r.bool() ? 's' : 'S');
          if (r.bool()) s.width = n + r.below(40) + 1;
          if (s.width > Ref.LIMIT) s.width = Ref.LIMIT;
          s.minus = r.bool();
          if (r.chance(1, 3)) s.prec = Math.min(Ref.LIMIT, n - n / 4);
          p.items.add(s);
          p.args.add(Arg.of(Gen.sequence(r, Gen.string(r, n, r.below(7)))));
          if (r.bool()) p.items.add(Gen.string(r, n, 2));
          p.fmt = Program.format(p.items);
          one(r, i, p);
        });
  }

  private interface Call {
    Object run() throws Throwable;
  }

  private void one(Rng r, long i, Program p) {
    Program.Expect e;
    try {
      e = Program.eval(p.items, p.args);
    } catch (Ref.Unspecified x) {
      return;
    }
    if (e.refused) return;
    String want = e.text;
    FastPrintf plain = FastPrintf.compile(p.fmt);
    FastPrintf cached = plain.enableThreadLocalCache();
    FastPrintf sized = plain.setStringBuilderInitialCapacity(1 + r.below(300));
    FastPrintf both = sized.enableThreadLocalCache();
    FastPrintf both2 = cached.setStringBuilderInitialCapacity(1 + r.below(300));
    FastPrintf[] fs = {plain, cached, sized, both, both2};
    boolean prims = false;
    for (Arg a : p.args) prims |= a.prim;
    List<Args> as = new ArrayList<>();
    Object[] values = Lib.values(p.args);
    as.add(Lib.args(p.args));
    as.add(Args.of(values));
    as.add(Args.of(Arrays.asList(values)));
    as.add(Args.of((Iterable<Object>) () -> Arrays.asList(values).iterator()));
    as.add(Args.of(new LinkedList<>(Arrays.asList(values))));
    Args typed = r.bool() ? Args.create() : Args.createWithExpectedSize(r.below(40));
    for (Object v : values) typed = Lib.addTyped(typed, v);
    as.add(typed);
    Args gen1 = Args.createWithExpectedSize(values.length);
    for (Object v : values) gen1 = gen1.put(v);
    as.add(gen1);
    if (!prims) as.add(Args.of(Collections.unmodifiableCollection(Arrays.asList(values))));

    // every argument form to a string
    for (int k = 0; k < as.size(); k++) {
      FastPrintf f = fs[(k + r.below(fs.length)) % fs.length];
      Args a = as.get(k);
      same(i, p, want, "string, argument form " + k, () -> f.format(a));
    }
    for (int k = 0; k < fs.length; k++) {
      FastPrintf f = fs[k];
      same(i, p, want, "string, formatter variant " + k, () -> f.format(as.get(0)));
      same(i, p, want, "varargs, formatter variant " + k, () -> f.format(values));
      same(i, p, want, "string again, formatter variant " + k, () -> f.format(as.get(0)));
    }
    // destinations
    for (int k = 0; k < 15 + Sinks.READERS; k++) {
      FastPrintf f = fs[r.below(fs.length)];
      Args a = as.get(r.below(as.size()));
      dest(r, i, p, want, k, f, a);
    }
    if (!want.isEmpty()) {
      rep.distinct(p.hash());
      if (rep.wantsSamples() && p.fmt.length() < 120) rep.sample(p.show().replace("\n", " "));
    }
  }

  private void dest(Rng r, long i, Program p, String want, int k, FastPrintf f, Args a) {
    String pre = r.chance(1, 3) ? "" : gen.string(r, 40);
    switch (k) {
      case 0:
        {
          StringBuilder d = new StringBuilder(pre);
          to(i, p, pre, want, "string builder", d, () -> f.format(d, a), d::toString);
          return;
        }
      case 1:
        {
          StringBuffer d = new StringBuffer(pre);
          to(i, p, pre, want, "string buffer", d, () -> f.format(d, a), d::toString);
          return;
        }
      case 2:
        {
          StringWriter d = new StringWriter();
          d.write(pre);
          to(i, p, pre, want, "string writer", d, () -> f.format(d, a), d::toString);
          return;
        }
      case 3:
        {
          CharBuffer d = CharBuffer.allocate(pre.length() + want.length() + r.below(3));
          d.put(pre);
          to(i, p, pre, want, "character buffer", d, () -> f.format(d, a), () -> new String(d.array(), 0, d.position()));
          return;
        }
      case 4:
        {
          CharArrayWriter d = new CharArrayWriter();
          d.append(pre);
          to(i, p, pre, want, "character array writer", d, () -> f.format(d, a), d::toString);
          return;
        }
      case 5:
        {
          StringWriter w = new StringWriter();
          PrintWriter d = new PrintWriter(w);
          d.print(pre);
          to(i, p, pre, want, "print writer", d, () -> f.format(d, a), () -> {
            d.flush();
            return w.toString();
          });
          return;
        }
      case 6:
        {
          StringWriter w = new StringWriter();
          BufferedWriter d = new BufferedWriter(w, 1 + r.below(9));
          to(i, p, "", want, "buffered writer", d, () -> f.format(d, a), () -> {
            d.flush();
            return w.toString();
          });
          return;
        }
      case 7:
        {
          Sinks.Raw d = new Sinks.Raw();
          d.got.append(pre);
          to(i, p, pre, want, "custom writer", d, () -> f.format(d, a), d.got::toString);
          return;
        }
      case 8:
        {
          Sinks.Raw w = new Sinks.Raw();
          Writer d = new FilterWriter(w) {};
          to(i, p, "", want, "filter writer", d, () -> f.format(d, a), w.got::toString);
          return;
        }
      case 9:
        {
          StringBuilder target = new StringBuilder(pre);
          // prefilled capacity exactly used up
          target.ensureCapacity(pre.length() + want.length());
          to(i, p, pre, want, "sized string builder", target, () -> f.format(target, a), target::toString);
          return;
        }
      case 10:
        {
          if (!ascii(want)) return;
          ByteArrayOutputStream b = new ByteArrayOutputStream();
          PrintStream d = new PrintStream(b);
          to(i, p, "", want, "print stream", d, () -> f.format(d, a), () -> {
            d.flush();
            return new String(b.toByteArray(), StandardCharsets.ISO_8859_1);
          });
          return;
        }
      case 11:
        {
          if (!wellFormed(want)) return;
          ByteArrayOutputStream b = new ByteArrayOutputStream();
          Writer d = new OutputStreamWriter(b, StandardCharsets.UTF_8);
          to(i, p, "", want, "encoding writer", d, () -> f.format(d, a), () -> {
            d.flush();
            return new String(b.toByteArray(), StandardCharsets.UTF_8);
          });
          return;
        }
      case 12:
        {
          Sinks.Watched d = new Sinks.Watched();
          to(i, p, "", want, "watching string writer", d, () -> f.format(d, a), d.got::toString);
          return;
        }
      case 13:
        {
          Sinks.WatchedArray d = new Sinks.WatchedArray();
          to(i, p, "", want, "watching array writer", d, () -> f.format(d, a), d.got::toString);
          return;
        }
      case 14:
        {
          Sinks.WatchedPrint d = new Sinks.WatchedPrint();
          to(i, p, "", want, "watching print writer", d, () -> f.format(d, a), d.got::toString);
          return;
        }
      default:
        {
          Sinks.Log d = new Sinks.Log(k - 15);
          d.got.append(pre);
          to(i, p, pre, want, "custom appendable reading in way " + (k - 15), d, () -> f.format(d, a), d.got::toString);
          rep.count("append(sequence) observed", d.seqs);
          rep.count("append(sequence, range) observed", d.ranges);
          rep.count("append(char) observed", d.chars);
          if (d.sawNull) fail("programs", i, "null appended", p.show());
        }
    }
  }

  private static boolean ascii(String s) {
    for (int i = 0; i < s.length(); i++) if (s.charAt(i) > 126) return false;
    return true;
  }

  private static boolean wellFormed(String s) {
    return new String(s.getBytes(StandardCharsets.UTF_16BE), StandardCharsets.UTF_16BE).equals(s);
  }

  private void to(
      long i, Program p, String pre, String want, String what, Object dest, Call c, java.util.concurrent.Callable<String> content) {
    Object back = null;
    Throwable t = null;
    String got = null;
    try {
      back = c.run();
      got = content.call();
    } catch (Throwable x) {
      t = x;
    }
    rep.judged();
    rep.count("writes to " + (what.startsWith("custom app") ? "custom appendable" : what));
    if (t != null) fail("programs", i, "unexpected exception", what + "\n" + p.show() + "\n" + t + trace(t));
    else if (back != dest) fail("programs", i, "another destination returned", what + "\n" + p.show());
    else if (!got.equals(pre + want)) {
      fail("programs", i, "wrong content", what + "\n" + p.show() + "\nexpected: " + Report.quote(pre + want) + "\nactual:   " + Report.quote(got));
    }
  }

  private void same(long i, Program p, String want, String what, Call c) {
    String got = null;
    Throwable t = null;
    try {
      got = (String) c.run();
    } catch (Throwable x) {
      t = x;
    }
    rep.judged();
    if (t != null) fail("programs", i, "unexpected exception", what + "\n" + p.show() + "\n" + t + trace(t));
    else if (!got.equals(want)) {
      fail("programs", i, "wrong text", what + "\n" + p.show() + "\nexpected: " + Report.quote(want) + "\nactual:   " + Report.quote(got));
    }
  }

  static String trace(Throwable t) {
    StringBuilder sb = new StringBuilder();
    for (int k = 0; k < Math.min(12, t.getStackTrace().length); k++) sb.append("\n  at ").append(t.getStackTrace()[k]);
    return sb.toString();
  }
}
