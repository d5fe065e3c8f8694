package fpv;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.Flag;
import io.fastprintf.FormatContext;
import io.fastprintf.PrintfException;
import io.fastprintf.Specifier;
import io.fastprintf.appender.Appender;
import io.fastprintf.appender.DefaultAppender;
import io.fastprintf.appender.FixedStringAppender;
import io.fastprintf.seq.Seq;
import io.fastprintf.traits.FormatTraits;
import java.io.ByteArrayInputStream;
import java.io.ByteArrayOutputStream;
import java.io.ObjectInputStream;
import java.io.ObjectOutputStream;
import java.time.format.DateTimeFormatter;
import java.util.ArrayList;
import java.util.EnumSet;
import java.util.Iterator;
import java.util.List;

/** Settings of directives and directives used by themselves. */
public final class CheckC24 extends Check {
  private static final String FLAGS = "-#+ 0";

  @Override
  public String level() {
    return "exploration";
  }

  @Override
  public String rule() {
    return "random histories of settings made, derived, handed out, tampered with and serialized, all of them"
        + " observed after every step; directives made from settings and driven with recorded arguments; one"
        + " evaluation = one settings value observed or one directive driven; distinct by content";
  }

  @Override
  public void run() throws Throwable {
    cases("settings", 60_000, this::settings);
    cases("directives", 400_000, this::directives);
    cases("letters", 8, this::letters);
  }

  private static final class Model {
    FormatContext c;
    EnumSet<Flag> flags;
    int width, prec;
    DateTimeFormatter f;
    String how;
  }

  private static EnumSet<Flag> flags(String s) {
    EnumSet<Flag> e = EnumSet.noneOf(Flag.class);
    for (int i = 0; i < s.length(); i++) e.add(flag(s.charAt(i)));
    return e;
  }

  private static Flag flag(char c) {
    switch (c) {
      case '-':
        return Flag.LEFT_JUSTIFY;
      case '#':
        return Flag.ALTERNATE;
      case '+':
        return Flag.PLUS;
      case ' ':
        return Flag.LEADING_SPACE;
      default:
        return Flag.ZERO_PAD;
    }
  }

  private static String written(EnumSet<Flag> e) {
    StringBuilder sb = new StringBuilder();
    for (int i = 0; i < FLAGS.length(); i++) if (e.contains(flag(FLAGS.charAt(i)))) sb.append(FLAGS.charAt(i));
    return sb.toString();
  }

  private int field(Rng r) {
    switch (r.below(8)) {
      case 0:
        return FormatContext.UNSET;
      case 1:
        return FormatContext.PRECEDING;
      case 2:
        return r.pick(new int[] {0, 1, 65535, 65536, 65537, -2, -3, Integer.MAX_VALUE, Integer.MIN_VALUE + 1});
      case 3:
        return (int) gen.int64(r);
      default:
        return gen.width(r);
    }
  }

  private static boolean valid(int n) {
    return n == FormatContext.UNSET || n == FormatContext.PRECEDING || n >= 0 && n <= 65536;
  }

  private void settings(Rng r, long i) {
    List<Model> all = new ArrayList<>();
    int steps = r.range(2, 14);
    for (int s = 0; s < steps; s++) {
      int op = all.isEmpty() ? r.below(3) : r.below(9);
      Model m = all.isEmpty() ? null : all.get(r.below(all.size()));
      Model n = new Model();
      boolean refuse = false;
      Throwable t = null;
      try {
        switch (op) {
          case 0:
            {
              StringBuilder sb = new StringBuilder();
              for (int k = r.below(5); k > 0; k--) sb.append(FLAGS.charAt(r.below(5)));
              n.flags = flags(sb.toString());
              n.width = FormatContext.UNSET;
              n.prec = FormatContext.UNSET;
              n.how = "create(" + Report.quote(sb) + ")";
              n.c = FormatContext.create(sb.toString());
              break;
            }
          case 1:
            {
              StringBuilder sb = new StringBuilder();
              for (int k = r.below(5); k > 0; k--) sb.append(FLAGS.charAt(r.below(5)));
              n.flags = flags(sb.toString());
              n.width = field(r);
              n.prec = field(r);
              n.how = "create(" + Report.quote(sb) + ", " + n.width + ", " + n.prec + ")";
              refuse = !valid(n.width) || !valid(n.prec);
              n.c = FormatContext.create(sb.toString(), n.width, n.prec);
              break;
            }
          case 2:
            {
              EnumSet<Flag> e = EnumSet.noneOf(Flag.class);
              for (Flag f : Flag.values()) if (r.bool()) e.add(f);
              n.flags = EnumSet.copyOf(e);
              n.width = field(r);
              n.prec = field(r);
              n.f = r.bool() ? null : DateTimeFormatter.ofPattern("yyyy-MM-dd");
              n.how = "create(" + e + ", " + n.width + ", " + n.prec + ", " + (n.f != null) + ")";
              refuse = !valid(n.width) || !valid(n.prec);
              n.c = FormatContext.create(e, n.width, n.prec, n.f);
              // the caller's set stays the caller's
              if (r.bool()) e.clear();
              else for (Flag f : Flag.values()) if (!e.remove(f)) e.add(f);
              break;
            }
          case 3:
            n = derived(m);
            n.width = field(r);
            n.how = "setWidth(" + n.width + ") of " + m.how;
            refuse = !valid(n.width);
            n.c = m.c.setWidth(n.width);
            break;
          case 4:
            n = derived(m);
            n.prec = field(r);
            n.how = "setPrecision(" + n.prec + ") of " + m.how;
            refuse = !valid(n.prec);
            n.c = m.c.setPrecision(n.prec);
            break;
          case 5:
          case 6:
            {
              n = derived(m);
              Flag f = r.chance(1, 8) ? null : Flag.values()[r.below(5)];
              if (f != null) n.flags.add(f);
              n.how = "addFlag(" + f + ") of " + m.how;
              n.c = m.c.addFlag(f);
              break;
            }
          case 7:
            {
              // what is handed out may be changed by its receiver
              EnumSet<Flag> e = m.c.getFlags();
              if (r.bool()) e.clear();
              else e.addAll(EnumSet.allOf(Flag.class));
              n = derived(m);
              n.how = m.how + " after a change of the flags handed out";
              n.c = m.c;
              break;
            }
          default:
            {
              n = derived(m);
              if (m.f != null) continue;
              n.how = "a serialized copy of " + m.how;
              ByteArrayOutputStream b = new ByteArrayOutputStream();
              try (ObjectOutputStream o = new ObjectOutputStream(b)) {
                o.writeObject(m.c);
              }
              try (ObjectInputStream in = new ObjectInputStream(new ByteArrayInputStream(b.toByteArray()))) {
                n.c = (FormatContext) in.readObject();
              }
              rep.count("settings serialized");
            }
        }
      } catch (Throwable x) {
        t = x;
      }
      if (n.how != null && n.how.length() > 800) return;
      rep.judged();
      if (refuse) {
        rep.count("settings refused");
        if (!(t instanceof PrintfException)) {
          fail("settings", i, "impossible settings", n.how + "\nactual: " + (t == null ? "accepted" : t.toString()));
          return;
        }
        if (t.getMessage() == null || t.getMessage().isEmpty()) {
          fail("settings", i, "a refusal says nothing", n.how);
          return;
        }
      } else if (t != null || n.c == null) {
        fail("settings", i, "settings refused", n.how + "\nactual: " + (t == null ? "null" : Report.trace(t)));
        return;
      } else {
        all.add(n);
        rep.distinct(Rng.mix(Rng.hash(n.how), Rng.mix(n.width, n.prec)));
      }
      for (Model k : all) {
        rep.judged();
        String p = observe(k);
        if (p != null) {
          fail("settings", i, "settings are not what they were made to be", p + "\nsettings: " + k.how + "\nafter: " + n.how);
          return;
        }
      }
    }
    if (rep.wantsSamples() && !all.isEmpty()) rep.sample(all.get(all.size() - 1).how);
  }

  private static Model derived(Model m) {
    Model n = new Model();
    n.flags = EnumSet.copyOf(m.flags);
    n.width = m.width;
    n.prec = m.prec;
    n.f = m.f;
    return n;
  }

  private static String observe(Model m) {
    FormatContext c = m.c;
    if (c.getWidth() != m.width) return "width " + c.getWidth() + " instead of " + m.width;
    if (c.getPrecision() != m.prec) return "precision " + c.getPrecision() + " instead of " + m.prec;
    if (!c.getFlags().equals(m.flags)) return "flags " + c.getFlags() + " instead of " + m.flags;
    for (Flag f : Flag.values()) if (c.hasFlag(f) != m.flags.contains(f)) return "has flag " + f + ": " + c.hasFlag(f);
    if (c.hasFlag(null)) return "has no flag";
    if (c.getDateTimeFormatter() != m.f) return "pattern " + c.getDateTimeFormatter();
    if (c.isPrecedingWidth() != (m.width == FormatContext.PRECEDING)) return "dynamic width";
    if (c.isPrecedingPrecision() != (m.prec == FormatContext.PRECEDING)) return "dynamic precision";
    if (m.width != FormatContext.PRECEDING && c.isWidthSet() != (m.width >= 0)) return "width set";
    if (m.prec != FormatContext.PRECEDING && c.isPrecisionSet() != (m.prec >= 0)) return "precision set";
    // a width of zero cannot be told from the flag
    if (m.width == 0) return null;
    // written as a directive it means the same
    String w = c.toPatternString(Specifier.STRING);
    Grammar g = Grammar.parse(w);
    if (!g.accepted() || g.items.size() != 1 || !(g.items.get(0) instanceof Spec)) return "is written " + Report.quote(w);
    Spec s = (Spec) g.items.get(0);
    int sw = s.width == Spec.NONE ? FormatContext.UNSET : s.width == Spec.STAR ? FormatContext.PRECEDING : s.width;
    int sp = s.prec == Spec.NONE ? FormatContext.UNSET : s.prec == Spec.STAR ? FormatContext.PRECEDING : s.prec;
    if (s.conv != 's' || sp != m.prec || sw != m.width || !written(of(s)).equals(written(m.flags))) return "is written " + Report.quote(w);
    return null;
  }

  private static EnumSet<Flag> of(Spec s) {
    EnumSet<Flag> e = EnumSet.noneOf(Flag.class);
    if (s.minus) e.add(Flag.LEFT_JUSTIFY);
    if (s.alt) e.add(Flag.ALTERNATE);
    if (s.plus) e.add(Flag.PLUS);
    if (s.space) e.add(Flag.LEADING_SPACE);
    if (s.zero) e.add(Flag.ZERO_PAD);
    return e;
  }

  /** Counts what a directive takes. */
  private static final class Taken implements Iterator<FormatTraits> {
    final Iterator<FormatTraits> it;
    int n;

    Taken(Iterator<FormatTraits> it) {
      this.it = it;
    }

    @Override
    public boolean hasNext() {
      return it.hasNext();
    }

    @Override
    public FormatTraits next() {
      n++;
      return it.next();
    }
  }

  private void directives(Rng r, long i) {
    Program p = new Program();
    p.directive(gen, r, 60, r.chance(1, 8) ? "tT" : "diuoxXfFeEgGaAcsSpn");
    Spec s = (Spec) p.items.get(0);
    if (s.width > 3000) s.width = 30;
    if (s.prec > 3000) s.prec = 30;
    Specifier sp = Specifier.valueOf(s.conv);
    if (sp == null) {
      fail("directives", i, "a conversion is unknown", "" + s.conv);
      return;
    }
    int w = s.width == Spec.STAR ? FormatContext.PRECEDING : s.width == Spec.NONE ? FormatContext.UNSET : s.width;
    int q = s.prec == Spec.STAR ? FormatContext.PRECEDING : s.prec == Spec.NONE ? FormatContext.UNSET : s.prec;
    DateTimeFormatter f = null;
    Appender a;
    String text;
    try {
      if (s.pattern != null) f = DateTimeFormatter.ofPattern(s.pattern);
      a = new DefaultAppender(sp, FormatContext.create(of(s), w, q, f));
      text = a.toString();
    } catch (Throwable t) {
      fail("directives", i, "a directive cannot be made", s.text() + "\n" + Report.trace(t));
      return;
    }
    FastPrintf again = null;
    if (f == null) {
      try {
        again = FastPrintf.compile(text);
      } catch (Throwable t) {
        fail("directives", i, "a directive cannot be read back", s.text() + " is written " + Report.quote(text) + "\n" + t);
        return;
      }
    }
    List<Seq> kept = new ArrayList<>();
    List<String> was = new ArrayList<>();
    int calls = r.range(1, 4);
    for (int k = 0; k < calls; k++) {
      List<Arg> args = k == 0 ? p.args : Program.fill(gen, r, p.items, 60);
      if (k > 0 && r.chance(1, 6)) args = new ArrayList<>(args.subList(0, args.size() - 1));
      else if (r.chance(1, 6)) {
        args = new ArrayList<>(args);
        args.add(Arg.of("surplus"));
      }
      Program.Expect e;
      try {
        e = Program.eval(p.items, args);
      } catch (Ref.Unspecified u) {
        continue;
      }
      List<Seq> got = new ArrayList<>();
      Taken it = new Taken(Lib.args(args).iterator());
      Throwable t = null;
      try {
        a.append(got::add, it);
      } catch (Throwable x) {
        t = x;
      }
      rep.judged();
      rep.count(e.refused ? "directives refused" : "directives driven");
      StringBuilder sb = new StringBuilder();
      for (Seq g : got) sb.append(g);
      String problem = null;
      if (e.refused) {
        if (!(t instanceof PrintfException)) problem = "not refused";
        else if (!got.isEmpty()) problem = "something was delivered";
      } else if (t != null) problem = "unexpected exception";
      else if (!sb.toString().equals(e.text)) problem = "wrong text";
      else if (it.n != e.consumed) problem = "took " + it.n + " arguments instead of " + e.consumed;
      else if (got.size() > 1) problem = "delivered in pieces";
      if (problem == null && again != null) {
        FastPrintf f2 = again;
        List<Arg> l = args;
        Lib.Out o = Lib.call(() -> f2.format(Lib.args(l)));
        if (e.refused ? !o.refused() : o.error != null || !o.text.equals(e.text)) {
          problem = "written as " + Report.quote(text) + " it prints " + o;
        }
        rep.count("directives read back");
      }
      for (int j = 0; j < kept.size() && problem == null; j++) {
        if (!kept.get(j).toString().equals(was.get(j))) problem = "a text delivered earlier has changed: " + Report.quote(was.get(j));
      }
      if (problem != null) {
        fail("directives", i, problem, Lib.show(s.text(), args) + "\nexpected: " + (e.refused ? "refusal" : Report.quote(e.text)) + "\nactual:   " + (t == null ? Report.quote(sb) : t.toString()));
        return;
      }
      if (!e.refused) {
        kept.addAll(got);
        for (Seq g : got) was.add(g.toString());
      }
    }
    // literal pieces
    if (r.chance(1, 10)) {
      String lit = gen.string(r, 60);
      Taken it = new Taken(Args.of("x").iterator());
      StringBuilder sb = new StringBuilder();
      FixedStringAppender fixed = new FixedStringAppender(lit);
      Lib.Out o = Lib.call(() -> {
        fixed.append(q2 -> sb.append(q2), it);
        fixed.append(q2 -> sb.append(q2), it);
        return fixed.getValue();
      });
      rep.judged();
      rep.count("literal pieces driven");
      if (o.error != null || !o.text.equals(lit) || !sb.toString().equals(lit + lit) || it.n != 0) {
        fail("directives", i, "literal piece", Report.quote(lit) + "\nactual: " + Report.quote(sb) + " value " + o + ", took " + it.n);
        return;
      }
    }
    rep.distinct(p.hash());
    if (rep.wantsSamples()) rep.sample(Lib.show(s.text(), p.args));
  }

  /** Every character as flag and as conversion. */
  private void letters(Rng r, long i) {
    for (int c = (int) (i % 8) << 13; c < (int) (i % 8 + 1) << 13; c++) {
      char ch = (char) c;
      rep.judged();
      Flag f = Flag.valueOf(ch);
      if (FLAGS.indexOf(ch) >= 0 ? f != flag(ch) : f != null) {
        fail("letters", i, "flag", c + " is " + f);
        return;
      }
      Specifier s = Specifier.valueOf(ch);
      boolean known = Grammar.CONV.indexOf(ch) >= 0 || ch == '%';
      String want = ch == 'i' ? "d" : String.valueOf(ch);
      if (known ? s == null || !s.toString().equals(want) || s.isDateTimeSpecifier() != (ch == 't' || ch == 'T') : s != null) {
        fail("letters", i, "conversion", c + " is " + s);
        return;
      }
      rep.count("characters judged");
      rep.distinct(Rng.mix(7, c));
    }
  }
}
