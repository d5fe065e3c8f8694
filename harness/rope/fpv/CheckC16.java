package fpv;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.seq.AtomicSeq;
import io.fastprintf.seq.Seq;
import java.io.IOException;
import java.io.StringWriter;
import java.nio.CharBuffer;
import java.util.ArrayList;
import java.util.List;
import java.util.function.Function;

/** Rope programs against strings. */
public final class CheckC16 extends Check {
  private static final FastPrintf[] FORMATS = {
    FastPrintf.compile("%s"), FastPrintf.compile("[%S]"), FastPrintf.compile("%20s|"),
    FastPrintf.compile("%-300s|"), FastPrintf.compile("%.5s"), FastPrintf.compile("%-12.7S|"),
    FastPrintf.compile("%.40s|%s")
  };
  private static final String[] TEXTS = {"%s", "[%S]", "%20s|", "%-300s|", "%.5s", "%-12.7S|", "%.40s|%s"};

  private final Function<String, CharSequence> foreign = Gen.foreign();

  @Override
  public String level() {
    return "exploration";
  }

  @Override
  public String rule() {
    return "random programs of 3..40 rope operations; every value is observed completely when made and"
        + " again after the program; one evaluation = one value observed; distinct by construction"
        + " history";
  }

  @Override
  public void run() throws Throwable {
    cases("programs", 80_000, (r, i) -> new Prog(r, i).run());
    cases("making", 4_000, (r, i) -> making(r, i));
    cases("chains", 120, (r, i) -> chain(r, i));
    cases("slices", 6_000, (r, i) -> slices(r, i));
  }

  static final class Val {
    final Seq q;
    final String s;
    final String how;

    Val(Seq q, String s, String how) {
      this.q = q;
      this.s = s;
      this.how = how.length() > 600 ? how.substring(0, 600) + "..." : how;
    }
  }

  private final class Prog {
    final Rng r;
    final long i;
    final List<Val> vals = new ArrayList<>();
    long hash;

    Prog(Rng r, long i) {
      this.r = r;
      this.i = i;
    }

    Val pick() {
      return vals.get(r.chance(1, 2) ? vals.size() - 1 - r.below(Math.min(4, vals.size())) : r.below(vals.size()));
    }

    void run() {
      int n = r.range(3, 40);
      for (int k = 0; k < n; k++) {
        Val v;
        try {
          v = k == 0 ? atom(r, k) : step(k);
        } catch (Throwable t) {
          fail("programs", i, "an operation failed", "step " + k + ": " + t + CheckC11.trace(t) + values());
          return;
        }
        if (v.s.length() > (i % 50 == 0 ? 100_000 : 6_000)) continue;
        vals.add(v);
        hash = Rng.mix(hash, Rng.hash(v.how));
        if (!observe(r, "programs", i, v)) return;
        rep.distinct(Rng.mix(hash, Rng.hash(v.s)));
      }
      // nothing that happened later changed any of them
      for (Val v : vals) {
        rep.count("values observed again");
        if (!observe(r, "programs", i, v)) return;
      }
      if (rep.wantsSamples()) rep.sample(vals.get(vals.size() - 1).how);
    }

    private String values() {
      StringBuilder sb = new StringBuilder();
      int k = 0;
      for (Val v : vals) sb.append("\n v").append(k++).append(" = ").append(v.how);
      return sb.toString();
    }

    Val step(int k) {
      switch (r.below(12)) {
        case 0:
        case 1:
          return atom(r, k);
        case 2:
        case 3:
          {
            Val a = pick(), b = pick();
            return new Val(a.q.append(b.q), a.s + b.s, "append(" + a.how + ", " + b.how + ")");
          }
        case 4:
          {
            Val a = pick(), b = pick();
            return new Val(a.q.prepend(b.q), b.s + a.s, "prepend(" + a.how + ", " + b.how + ")");
          }
        case 5:
          {
            Val a = pick(), b = pick();
            return new Val(Seq.concat(a.q, b.q), a.s + b.s, "concat(" + a.how + ", " + b.how + ")");
          }
        case 6:
        case 7:
        case 8:
          {
            Val a = pick();
            int n = a.s.length();
            int x = r.below(n + 1), y = r.below(n + 1);
            if (r.chance(1, 6)) x = 0;
            if (r.chance(1, 6)) y = n;
            if (r.chance(1, 8)) y = Math.min(n, x + 1);
            int f = Math.min(x, y), t = Math.max(x, y);
            return new Val(a.q.subSequence(f, t), a.s.substring(f, t), "slice(" + a.how + ", " + f + ", " + t + ")");
          }
        case 9:
          {
            Val a = pick();
            return new Val(a.q.upperCase(), Ref.upper(a.s), "upper(" + a.how + ")");
          }
        case 10:
          {
            List<AtomicSeq> l = new ArrayList<>();
            StringBuilder sb = new StringBuilder();
            StringBuilder how = new StringBuilder("join(");
            int n = r.below(6);
            for (int j = 0; j < n; j++) {
              Val a = atom(r, j);
              if (r.chance(1, 3)) {
                // atoms derived from atoms stay atoms
                int f = r.below(a.s.length() + 1);
                Seq cut = a.q.subSequence(f, a.s.length());
                a = new Val(cut, a.s.substring(f), "tail(" + a.how + ", " + f + ")");
              }
              if (r.chance(1, 4)) a = new Val(a.q.upperCase(), Ref.upper(a.s), "upper(" + a.how + ")");
              if (!(a.q instanceof AtomicSeq)) continue;
              l.add((AtomicSeq) a.q);
              sb.append(a.s);
              how.append(a.how).append(", ");
            }
            return new Val(Seq.join(l), sb.toString(), how.append(')').toString());
          }
        default:
          {
            Val a = pick();
            switch (r.below(4)) {
              case 0:
                return new Val(a.q.dup(), a.s, "dup(" + a.how + ")");
              case 1:
                return new Val(a.q.map(Seq::upperCase), Ref.upper(a.s), "map upper(" + a.how + ")");
              case 2:
                {
                  // deferred text that writes another rope
                  Seq inner = a.q;
                  return new Val(Seq.lazy(sb -> inner.appendTo(sb), a.s.length()), a.s, "lazy(" + a.how + ")");
                }
              default:
                {
                  String t = a.q.toString();
                  return new Val(Seq.wrap(t), a.s, "wrap(string of " + a.how + ")");
                }
            }
          }
      }
    }
  }

  private Val atom(Rng r, int k) {
    String s = gen.string(r, r.chance(1, 12) ? 1500 : 40);
    int n = s.length();
    if (foreign != null && r.chance(1, 12)) {
      rep.count("texts implemented by the caller");
      return new Val((Seq) foreign.apply(s), s, "foreign(" + Report.quote(s) + ")");
    }
    switch (r.below(9)) {
      case 0:
        return new Val(Seq.wrap(s), s, "wrap(" + Report.quote(s) + ")");
      case 1:
        {
          int f = r.below(n + 1);
          return new Val(Seq.wrap(s, f), s.substring(f), "wrap(" + Report.quote(s) + ", " + f + ")");
        }
      case 2:
        {
          int a = r.below(n + 1), b = a + r.below(n - a + 1);
          return new Val(Seq.wrap(s, a, b), s.substring(a, b), "wrap(" + Report.quote(s) + ", " + a + ", " + b + ")");
        }
      case 3:
        return new Val(Seq.forArray(s.toCharArray()), s, "array(" + Report.quote(s) + ")");
      case 4:
        {
          int a = r.below(n + 1), l = r.below(n - a + 1);
          return new Val(
              Seq.forArray(s.toCharArray(), a, l), s.substring(a, a + l), "array(" + Report.quote(s) + ", " + a + ", " + l + ")");
        }
      case 5:
        {
          char c = Gen.ch(r, r.below(7));
          return new Val(Seq.ch(c), String.valueOf(c), "ch(" + (int) c + ")");
        }
      case 6:
        {
          char c = Gen.ch(r, r.below(7));
          int m = 1 + gen.length(r, 300);
          return new Val(Seq.repeated(c, m), Ref.rep(c, m), "repeated(" + (int) c + ", " + m + ")");
        }
      case 7:
        return new Val(
            Seq.lazy(
                sb -> {
                  for (int j = 0; j < n; j++) sb.append(s.charAt(j));
                },
                n),
            s,
            "lazy(" + Report.quote(s) + ")");
      default:
        return r.chance(1, 3)
            ? new Val(Seq.empty(), "", "empty")
            : new Val(Seq.lazy(sb -> sb.append(s), n), s, "lazy2(" + Report.quote(s) + ")");
    }
  }

  /** Everything that can be seen of a value. */
  private boolean observe(Rng r, String phase, long i, Val v) {
    rep.judged();
    String s = v.s;
    Seq q = v.q;
    int n = s.length();
    String problem = null;
    try {
      // in random order of first access, so deferred texts are entered through different doors
      int first = r.below(9);
      for (int k = 0; k < 9 && problem == null; k++) problem = view(r, (first + k) % 9, q, s, n);
    } catch (Throwable t) {
      problem = "observing failed: " + t + CheckC11.trace(t);
    }
    if (problem == null) return true;
    fail(phase, i, "rope differs from its string", problem + "\nvalue " + v.how + "\nstring " + Report.quote(s));
    return false;
  }

  private String view(Rng r, int k, Seq q, String s, int n) throws IOException {
    switch (k) {
      case 0:
        return q.length() == n && q.isEmpty() == (n == 0) ? null : "length " + q.length();
      case 1:
        {
          int step = n <= 40 ? 1 : n / 20;
          for (int j = 0; j < n; j += step) if (q.charAt(j) != s.charAt(j)) return "character " + j;
          if (n > 0 && q.charAt(n - 1) != s.charAt(n - 1)) return "last character";
          return null;
        }
      case 2:
        {
          String t = q.toString();
          return t.equals(s) ? null : "string form " + Report.quote(t);
        }
      case 3:
        {
          StringBuilder sb = new StringBuilder("pre");
          if (r.bool()) q.appendTo(sb);
          else q.appendTo((Appendable) sb);
          return sb.toString().equals("pre" + s) ? null : "appended " + Report.quote(sb);
        }
      case 4:
        {
          Sinks.Log d = new Sinks.Log(r.below(Sinks.READERS));
          if (r.chance(1, 3)) {
            StringWriter w = new StringWriter();
            q.appendTo(w);
            return w.toString().equals(s) ? null : "written " + Report.quote(w.toString());
          }
          if (r.chance(1, 3)) {
            CharBuffer b = CharBuffer.allocate(n);
            q.appendTo(b);
            return new String(b.array(), 0, b.position()).equals(s) ? null : "put " + Report.quote(new String(b.array()));
          }
          q.appendTo(d);
          return d.got.toString().equals(s) ? null : "sink got " + Report.quote(d.got);
        }
      case 5:
        {
          char c = n > 0 && r.chance(2, 3) ? s.charAt(r.below(n)) : Gen.ch(r, r.below(7));
          for (int j = 0; j < 3; j++) {
            if (q.indexOf(c) != s.indexOf(c)) return "indexOf(" + (int) c + ") = " + q.indexOf(c);
            c = j == 0 ? Character.toUpperCase(c) : Character.toLowerCase(c);
          }
          char p = n > 0 && r.bool() ? s.charAt(0) : 'a';
          return q.startsWith(p) == (n > 0 && s.charAt(0) == p) ? null : "startsWith(" + (int) p + ")";
        }
      case 6:
        {
          int a = r.below(n + 1), b = a + r.below(n - a + 1);
          CharSequence t = q.subSequence(a, b);
          if (t.length() != b - a || !t.toString().equals(s.substring(a, b))) {
            return "slice " + a + ".." + b + " has length " + t.length() + " and is " + Report.quote(t.toString());
          }
          int how = r.below(Sinks.READERS);
          b = Math.min(b, a + 300);
          String u = Sinks.read(how, q, a, b);
          return u.equals(s.substring(a, b)) ? null : "reading " + how + " of " + a + ".." + b + " gives " + Report.quote(u);
        }
      case 7:
        {
          rep.count("refusals observed", 4);
          String p = out(() -> q.charAt(-1 - r.below(3)), "charAt below zero");
          if (p == null) p = out(() -> q.charAt(n + (r.bool() ? 0 : r.below(3))), "charAt beyond the end");
          if (p == null) p = out(() -> q.charAt(r.bool() ? Integer.MIN_VALUE : Integer.MAX_VALUE), "charAt far outside");
          if (p == null) {
            switch (r.below(4)) {
              case 0:
                return out(() -> q.subSequence(-1, n), "slice from below zero");
              case 1:
                return out(() -> q.subSequence(0, n + 1 + r.below(3)), "slice beyond the end");
              case 2:
                return out(() -> q.subSequence(n + 1, n + 1 + r.below(2)), "slice behind the end");
              default:
                return n == 0 ? null : out(() -> q.subSequence(1, 0), "reversed slice");
            }
          }
          return p;
        }
      default:
        {
          int f = r.below(FORMATS.length);
          if (n > 20_000) return null;
          String want = "";
          Grammar g = Grammar.parse(TEXTS[f]);
          List<Arg> a = Lib.list(Arg.of(s), Arg.of(s));
          want = Program.eval(g.items, a).text;
          String got = FORMATS[f].format(r.bool() ? Args.of(q, q) : Args.create().putCharSequence(q).putCharSequence(q));
          rep.count("formatted");
          return got.equals(want) ? null : TEXTS[f] + " prints " + Report.quote(got) + " instead of " + Report.quote(want);
        }
    }
  }

  private interface Act {
    Object run() throws IOException;
  }

  private static String out(Act a, String what) {
    Object res;
    try {
      res = a.run();
    } catch (RuntimeException e) {
      return null;
    } catch (Throwable t) {
      return what + ": " + t;
    }
    return what + " was accepted: " + res;
  }

  /** Pieces that do not exist are refused when asked for. */
  private void making(Rng r, long i) {
    String s = gen.string(r, 60);
    char[] c = s.toCharArray();
    int n = s.length();
    int[] wild = {-1, -2, n + 1, n + 2, Integer.MAX_VALUE, Integer.MIN_VALUE, Integer.MAX_VALUE - n, -n - 1, 0, n, n / 2, 1};
    for (int k = 0; k < 12; k++) {
      int a = r.pick(wild), b = r.pick(wild);
      boolean ok = a >= 0 && b >= a && b <= n;
      boolean okLen = a >= 0 && b >= 0 && (long) a + b <= n;
      String p = null;
      rep.judged();
      rep.distinct(Rng.mix(Rng.hash(s), Rng.mix(a, b)));
      switch (k % 3) {
        case 0:
          if (ok) observe(r, "making", i, new Val(Seq.wrap(s, a, b), s.substring(a, b), "wrap " + a + ", " + b));
          else p = out(() -> Seq.wrap(s, a, b), "wrap(text of " + n + ", " + a + ", " + b + ")");
          break;
        case 1:
          if (okLen) observe(r, "making", i, new Val(Seq.forArray(c, a, b), s.substring(a, a + b), "array " + a + ", " + b));
          else p = out(() -> Seq.forArray(c, a, b), "array(of " + n + ", " + a + ", " + b + ")");
          break;
        default:
          if (a >= 0 && a <= n) observe(r, "making", i, new Val(Seq.wrap(s, a), s.substring(a), "wrap " + a));
          else p = out(() -> Seq.wrap(s, a), "wrap(text of " + n + ", " + a + ")");
      }
      rep.count("pieces asked for");
      if (p != null) {
        fail("making", i, "a piece out of range", p);
        return;
      }
    }
  }

  /** Very long and very lopsided ropes. */
  private void chain(Rng r, long i) {
    int n = r.pick(new int[] {100, 1000, 5000, 20000});
    int mode = r.below(5);
    Seq q = Seq.empty();
    StringBuilder sb = new StringBuilder();
    try {
      List<AtomicSeq> l = new ArrayList<>();
      for (int k = 0; k < n; k++) {
        String piece = k % 11 == 3 ? "" : Gen.string(r, 1 + k % 3, 1);
        Seq p = k % 5 == 4 && !piece.isEmpty() ? Seq.forArray(piece.toCharArray()) : Seq.wrap(piece);
        switch (mode) {
          case 0:
            q = q.append(p);
            sb.append(piece);
            break;
          case 1:
            q = q.prepend(p);
            sb.insert(0, piece);
            break;
          case 2:
            if (k % 2 == 0) {
              q = Seq.concat(q, p);
              sb.append(piece);
            } else {
              q = Seq.concat(p, q);
              sb.insert(0, piece);
            }
            break;
          case 3:
            l.add((AtomicSeq) p);
            sb.append(piece);
            break;
          default:
            // pairs of pairs
            {
              Seq two = Seq.concat(p, Seq.ch('x'));
              q = k % 3 == 0 ? Seq.concat(two, q) : Seq.concat(q, two);
              if (k % 3 == 0) sb.insert(0, piece + "x");
              else sb.append(piece).append('x');
            }
        }
      }
      if (mode == 3) q = Seq.join(l);
    } catch (Throwable t) {
      fail("chains", i, "an operation failed", "mode " + mode + " length " + n + ": " + t);
      return;
    }
    String s = sb.toString();
    rep.count("long chains");
    rep.distinct(Rng.hash(s));
    Val v = new Val(q, s, "chain mode " + mode + " of " + n);
    if (!observe(r, "chains", i, v)) return;
    Val u = new Val(q.upperCase(), Ref.upper(s), "upper of chain mode " + mode + " of " + n);
    if (!observe(r, "chains", i, u)) return;
    int a = s.length() / 3, b = s.length() - s.length() / 5;
    observe(r, "chains", i, new Val(q.subSequence(a, b), s.substring(a, b), "slice of chain mode " + mode + " of " + n));
  }

  /** All slices of slices of one composite. */
  private void slices(Rng r, long i) {
    List<Val> parts = new ArrayList<>();
    Seq q = Seq.empty();
    StringBuilder sb = new StringBuilder();
    int n = r.range(2, 5);
    StringBuilder how = new StringBuilder();
    for (int k = 0; k < n; k++) {
      Val a = atom(r, k);
      if (a.s.length() > 12) a = new Val(a.q.subSequence(3, 12), a.s.substring(3, 12), "slice(" + a.how + ", 3, 12)");
      parts.add(a);
      q = r.bool() ? q.append(a.q) : Seq.concat(q, a.q);
      sb.append(a.s);
      how.append(a.how).append(" + ");
    }
    if (r.chance(1, 4)) {
      q = q.upperCase();
      String t = Ref.upper(sb.toString());
      sb.setLength(0);
      sb.append(t);
      how.append("upper");
    }
    String s = sb.toString();
    rep.distinct(Rng.hash(how.toString()));
    for (int a = 0; a <= s.length(); a++) {
      for (int b = a; b <= s.length(); b++) {
        Seq t;
        try {
          t = q.subSequence(a, b);
        } catch (Throwable x) {
          fail("slices", i, "slicing failed", how + "\nslice " + a + ".." + b + ": " + x + CheckC11.trace(x));
          return;
        }
        rep.judged();
        if (t.length() != b - a || !t.toString().equals(s.substring(a, b))) {
          fail("slices", i, "wrong slice", how + "\nslice " + a + ".." + b + " = " + Report.quote(t.toString()) + " length " + t.length());
          return;
        }
        if (b - a >= 2) {
          int c = r.below(b - a), d = c + r.below(b - a - c + 1);
          if (!observe(r, "slices", i, new Val(t.subSequence(c, d), s.substring(a + c, a + d), "slice(slice(" + how + ", " + a + ", " + b + "), " + c + ", " + d + ")"))) {
            return;
          }
        }
      }
    }
  }
}
