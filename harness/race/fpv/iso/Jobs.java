package fpv.iso;

import fpv.race.Call;
import fpv.race.Plan;
import fpv.race.Scenario;
import fpv.race.Sched;
import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.PrintfException;
import io.fastprintf.seq.AtomicSeq;
import io.fastprintf.seq.Seq;
import java.io.StringWriter;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.List;
import java.util.Map;

/** The threads' work. Loaded together with a private copy of the library. */
public final class Jobs implements Scenario {
  public static final int KINDS = 9;

  private static final int START = Sched.site("deferred text starts", true);
  private static final int MIDDLE = Sched.site("deferred text half done", true);

  private Plan p;
  private final Map<String, FastPrintf> shared = new HashMap<>();
  private final Map<Call, Args> sharedArgs = new HashMap<>();
  private Seq[] ropes;
  private String[] strings;
  private FastPrintf base;

  private FastPrintf make(String fmt, int variant) {
    FastPrintf f = FastPrintf.compile(fmt);
    switch (variant) {
      case 1:
        return f.enableThreadLocalCache();
      case 2:
        return f.enableThreadLocalCache().setStringBuilderInitialCapacity(3);
      case 3:
        return f.setStringBuilderInitialCapacity(100_000).enableThreadLocalCache();
      default:
        return f;
    }
  }

  private static Args args(Call c) {
    Args a = Args.create();
    for (int i = 0; i < c.vals.length; i++) {
      Object v = c.vals[i];
      if (!c.prim[i]) a.put(v);
      else if (v instanceof Integer) a.putInt((Integer) v);
      else if (v instanceof Long) a.putLong((Long) v);
      else if (v instanceof Double) a.putDouble((Double) v);
      else if (v instanceof Float) a.putFloat((Float) v);
      else if (v instanceof Short) a.putShort((Short) v);
      else if (v instanceof Byte) a.putByte((Byte) v);
      else if (v instanceof Character) a.putChar((Character) v);
      else if (v instanceof Boolean) a.putBoolean((Boolean) v);
      else a.put(v);
    }
    return a;
  }

  @Override
  public void prepare(Plan plan) {
    p = plan;
    shared.clear();
    sharedArgs.clear();
    base = null;
    if (plan.kind != 2) {
      for (Call[] cs : plan.calls) {
        for (Call c : cs) {
          if (!shared.containsKey(c.fmt)) shared.put(c.fmt, make(c.fmt, plan.variant));
          if (!sharedArgs.containsKey(c)) sharedArgs.put(c, args(c));
        }
      }
    }
    if (plan.kind == 6 || plan.kind == 7) ropes();
    if (plan.kind == 5) base = FastPrintf.compile(plan.calls[0][0].fmt);
  }

  private void ropes() {
    String[] t = p.texts;
    List<Seq> out = new ArrayList<>();
    List<String> str = new ArrayList<>();
    String a = t[0], b = t[1], c = t[2];
    // deferred texts are not touched before the threads run
    Seq la = defer(a), lb = defer(b);
    Seq wc = Seq.wrap("<" + c + ">", 1, 1 + c.length());
    Seq ac = Seq.forArray(c.toCharArray());
    out.add(la);
    str.add(a);
    out.add(lb);
    str.add(b);
    out.add(wc);
    str.add(c);
    out.add(ac);
    str.add(c);
    out.add(Seq.concat(la, Seq.concat(lb, wc)));
    str.add(a + b + c);
    out.add(la.append(ac).prepend(lb));
    str.add(b + a + c);
    out.add(Seq.concat(defer(b), defer(a)).upperCase());
    str.add(upper(b + a));
    int cut = Math.min(b.length(), 3);
    out.add(Seq.concat(defer(b), defer(a)).subSequence(cut, b.length() + a.length()));
    str.add((b + a).substring(cut));
    out.add(Seq.repeated('r', 40).append(defer(a)));
    str.add("rrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrr" + a);
    List<AtomicSeq> atoms = new ArrayList<>();
    StringBuilder js = new StringBuilder();
    for (Seq q : Arrays.asList(la, wc, ac, lb)) {
      if (q instanceof AtomicSeq) {
        atoms.add((AtomicSeq) q);
        js.append(q == la ? a : q == lb ? b : c);
      }
    }
    out.add(Seq.join(atoms));
    str.add(js.toString());
    ropes = out.toArray(new Seq[0]);
    strings = str.toArray(new String[0]);
  }

  private static AtomicSeq defer(String t) {
    return Seq.lazy(
        sb -> {
          Sched.point(START);
          sb.append(t, 0, t.length() / 2);
          Sched.point(MIDDLE);
          sb.append(t, t.length() / 2, t.length());
        },
        t.length());
  }

  private static String upper(String s) {
    StringBuilder sb = new StringBuilder();
    for (char c : s.toCharArray()) sb.append(c >= 'a' && c <= 'z' ? (char) (c - 32) : c);
    return sb.toString();
  }

  private interface Text {
    String get() throws Exception;
  }

  private static String judge(Call c, Text t) {
    String s = null;
    Throwable e = null;
    try {
      s = t.get();
    } catch (Throwable x) {
      e = x;
    }
    return c.judge(s, e, PrintfException.class);
  }

  @Override
  public String run(int thread) {
    Call[] cs = p.calls[thread];
    for (int k = 0; k < cs.length; k++) {
      Call c = cs[k];
      FastPrintf f = shared.get(c.fmt);
      String bad = null;
      switch (p.kind) {
        case 0: // shared formatter, own arguments
          bad = judge(c, () -> f.format(args(c)));
          break;
        case 1: // shared formatter, shared arguments
          bad = judge(c, () -> f.format(sharedArgs.get(c)));
          if (bad == null && (thread + k) % 2 == 0) {
            List<Object> v = sharedArgs.get(c).values();
            boolean same = v.size() == c.vals.length;
            for (int i = 0; same && i < c.vals.length; i++) same = c.prim[i] ? c.vals[i].equals(v.get(i)) : c.vals[i] == v.get(i);
            if (!same) bad = "listed values " + v;
          }
          break;
        case 2: // compiled where it is used
          bad = judge(c, () -> make(c.fmt, p.variant).format(args(c)));
          break;
        case 3: // into own destinations
          bad =
              judge(
                  c,
                  () ->
                      (thread + k0(c)) % 2 == 0
                          ? f.format(new StringBuilder(), sharedArgs.get(c)).toString()
                          : f.format(new StringWriter(), sharedArgs.get(c)).toString());
          break;
        case 4: // a call inside a call
          {
            Call n = p.calls[(thread + 1) % p.calls.length][0];
            FastPrintf fn = shared.get(n.fmt);
            String[] inner = new String[1];
            FastPrintf outer = shared.get(c.fmt);
            Object nest =
                new Object() {
                  @Override
                  public String toString() {
                    inner[0] = judge(n, () -> fn.format(args(n)));
                    return "";
                  }
                };
            Object[] vals = Arrays.copyOf(c.vals, c.vals.length);
            bad = judge(c, () -> outer.format(args(c)));
            if (bad == null) {
              // the formatter shared by all threads prints the nested value
              String t = make(c.fmt.length() % 2 == 0 ? "%s%s" : "%S%s", p.variant).format(nest, "end");
              if (!t.equals("end")) bad = "outer call gave \"" + t + "\"";
              if (bad == null && vals.length != c.vals.length) bad = "arguments";
            }
            if (bad == null) bad = inner[0];
            break;
          }
        case 5: // configured where it is used
          {
            FastPrintf b = base;
            if (!c.fmt.equals(p.calls[0][0].fmt)) {
              bad = judge(c, () -> f.format(args(c)));
              break;
            }
            bad =
                judge(
                    c,
                    () ->
                        (thread % 2 == 0 ? b.enableThreadLocalCache() : b.setStringBuilderInitialCapacity(50 + thread).enableThreadLocalCache())
                            .format(sharedArgs.get(c)));
            break;
          }
        case 6: // shared text values, inspected
          bad = inspect(thread, k);
          break;
        case 7: // shared text values, formatted
          {
            int j = Math.floorMod((int) (p.salt >> 8) + k, ropes.length);
            Seq q = ropes[j];
            String s = strings[j];
            String got = shared.get(c.fmt) == null ? null : make("%s|%S", p.variant).format(q, q);
            if (!(s + "|" + upper(s)).equals(got)) bad = "text " + j + " printed \"" + got + "\" instead of \"" + s + "\" twice";
            if (bad == null) bad = judge(c, () -> f.format(sharedArgs.get(c)));
            break;
          }
        default: // repeated calls on one formatter
          for (int i = 0; i < 3 && bad == null; i++) bad = judge(c, () -> f.format(sharedArgs.get(c)));
      }
      if (bad != null) return "call " + k + ": " + bad;
    }
    return null;
  }

  private static int k0(Call c) {
    return c.fmt.length();
  }

  private String inspect(int thread, int k) {
    int j = Math.floorMod((int) (p.salt >> 8) + k, ropes.length);
    Seq q = ropes[j];
    String s = strings[j];
    for (int v = 0; v < 6; v++) {
      int view = Math.floorMod((int) p.salt + v + thread * 2, 6);
      switch (view) {
        case 0:
          if (!q.toString().equals(s)) return "text " + j + " string form \"" + q + "\" instead of \"" + s + "\"";
          break;
        case 1:
          {
            StringBuilder sb = new StringBuilder();
            q.appendTo(sb);
            if (!sb.toString().equals(s)) return "text " + j + " appended \"" + sb + "\" instead of \"" + s + "\"";
            break;
          }
        case 2:
          for (int i = 0; i < s.length(); i += 1 + s.length() / 6) {
            if (q.charAt(i) != s.charAt(i)) return "text " + j + " character " + i;
          }
          break;
        case 3:
          if (q.length() != s.length()) return "text " + j + " length";
          if (q.isEmpty() != s.isEmpty()) return "text " + j + " emptiness";
          break;
        case 4:
          {
            char c = s.isEmpty() ? 'x' : s.charAt(s.length() - 1);
            if (q.indexOf(c) != s.indexOf(c)) return "text " + j + " search";
            break;
          }
        default:
          {
            int b = s.length(), a = b / 3;
            String t = q.subSequence(a, b).toString();
            if (!t.equals(s.substring(a))) return "text " + j + " slice \"" + t + "\"";
            if (!q.upperCase().toString().equals(upper(s))) return "text " + j + " upper case";
          }
      }
    }
    return null;
  }
}
