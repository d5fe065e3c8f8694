package fpv;

import java.util.ArrayList;
import java.util.List;

/** A format with matching arguments and the expected outcome. */
final class Program {
  /** Literal texts and directives as written. */
  final List<Object> items = new ArrayList<>();

  final List<Arg> args = new ArrayList<>();
  String fmt = "";

  /** What a call has to do. */
  static final class Expect {
    /** Complete output, or if refused the output of everything before the refused directive. */
    String text;
    boolean refused;
    int consumed;
  }

  static String write(String literal) {
    return literal.replace("%", "%%");
  }

  static String format(List<Object> items) {
    StringBuilder sb = new StringBuilder();
    for (Object o : items) sb.append(o instanceof Spec ? ((Spec) o).text() : write((String) o));
    return sb.toString();
  }

  /** Throws Ref.Unspecified if some directive's outcome is not fixed. */
  static Expect eval(List<Object> items, List<Arg> args) {
    Expect e = new Expect();
    StringBuilder sb = new StringBuilder();
    int k = 0;
    int n = args.size();
    for (Object o : items) {
      if (o instanceof String) {
        sb.append((String) o);
        continue;
      }
      Spec s = (Spec) o;
      int need = 1 + (s.width == Spec.STAR ? 1 : 0) + (s.prec == Spec.STAR ? 1 : 0);
      try {
        Object w = null, p = null;
        if (s.width == Spec.STAR) {
          if (k >= n) throw new Ref.Refused("missing");
          w = args.get(k++).v;
        }
        if (s.prec == Spec.STAR) {
          if (k >= n) throw new Ref.Refused("missing");
          p = args.get(k++).v;
        }
        if (k >= n) throw new Ref.Refused("missing");
        Arg a = args.get(k++);
        Spec f = Ref.resolve(s, w, p);
        if (s.conv == 'n') continue;
        if (s.conv == 'p' && a.prim) throw new Ref.Refused("primitive");
        if (Ref.openForm(f, a.v)) throw new Ref.Unspecified("alternate form of g");
        sb.append(Ref.render(f, a.v));
        if (sb.length() > 3_000_000) throw new Ref.Unspecified("long");
      } catch (Ref.Refused x) {
        e.refused = true;
        break;
      }
    }
    e.text = sb.toString();
    e.consumed = k;
    return e;
  }

  /** A literal: sometimes with percent signs, sometimes long. */
  static String literal(Gen g, Rng r, int max) {
    String s = g.string(r, r.chance(1, 6) ? max : Math.min(max, 12));
    if (r.chance(1, 4)) s = s + (r.bool() ? "%" : "%%" + (r.bool() ? "d" : ""));
    return s;
  }

  static Program random(Gen g, Rng r, int maxItems, int maxText, String conv) {
    Program p = new Program();
    int n = r.chance(1, 20) ? r.below(maxItems * 4 + 1) : r.below(maxItems + 1);
    for (int i = 0; i < n; i++) {
      if (r.chance(1, 3)) {
        String lit = literal(g, r, maxText);
        // a brace after a date-time directive would start a pattern
        if (lit.startsWith("{")) lit = " " + lit;
        if (!lit.isEmpty()) p.items.add(lit);
      } else {
        p.directive(g, r, maxText, conv);
      }
    }
    p.fmt = format(p.items);
    return p;
  }

  private static final String[] PATTERNS = {
    "uuuu", "MM", "dd", "uuuu-MM-dd", "dd.MM.uu", "D", "QQ", "HH:mm:ss", "HHmm", "SSS", "nnnnnnnnn", "uuuu-MM-dd'T'HH:mm",
    "'year' uuuu", "''uuuu''", "'}'dd'{'", "'%d'MM", "'aBc'", "eee d MMM", "XXX", "xx", "VV", "ppppppd", "[HH]dd"
  };

  private static Spec fresh(Gen g, Rng r, String conv) {
    Spec s = g.spec(r, r.pick(conv));
    if (s.lower() == 't' && r.bool()) s.pattern = r.pick(PATTERNS);
    return s;
  }

  /** The directive before, with one thing changed. */
  private Spec sibling(Gen g, Rng r, String conv) {
    Object o = items.isEmpty() ? null : items.get(items.size() - 1);
    if (!(o instanceof Spec) || !r.chance(1, 3)) return fresh(g, r, conv);
    Spec s = ((Spec) o).clone();
    if (s.width == Spec.STAR) s.width = r.below(30) + 1;
    if (s.prec == Spec.STAR) s.prec = r.below(20);
    Spec t = g.spec(r, s.conv);
    switch (r.below(4)) {
      case 0:
        s.width = t.width;
        break;
      case 1:
        s.prec = t.prec;
        break;
      case 2:
        if (s.lower() != 't') break;
        s.pattern = r.chance(1, 4) ? null : r.pick(PATTERNS);
        break;
      default:
    }
    return s;
  }

  void directive(Gen g, Rng r, int maxText, String conv) {
    for (int tries = 0; ; tries++) {
      Spec s = tries < 5 ? sibling(g, r, conv) : new Spec('d');
      if (s.width > 200 && r.chance(9, 10)) s.width = 1 + s.width % 200;
      if (s.prec > 200 && r.chance(9, 10)) s.prec %= 200;
      if (s.width > maxText * 4) s.width = maxText;
      if (s.prec > maxText * 4) s.prec = maxText;
      if (s.conv == 'g' || s.conv == 'G') s.alt = false;
      Object v;
      if (tries >= 5) v = 7;
      else if (s.lower() == 's') v = g.anyText(r, maxText);
      else if (s.conv == 'n') v = g.anyText(r, 10);
      else if (s.conv == 'p') v = r.chance(1, 8) ? null : g.object(r);
      else v = g.valueFor(r, s.conv);
      try {
        if (Ref.render(s, v).length() > 200_000) continue;
      } catch (Ref.Unspecified e) {
        continue;
      } catch (Ref.Refused e) {
        if (!r.chance(1, 20)) continue;
      }
      List<Arg> mine = new ArrayList<>();
      Spec w = Directive.starify(r, s, mine);
      items.add(w);
      args.addAll(mine);
      args.add(new Arg(v, s.conv != 'p' && Arg.boxable(v) && r.bool()));
      return;
    }
  }

  /** Fresh arguments for given directives; all of them convert. */
  static List<Arg> fill(Gen g, Rng r, List<Object> items, int maxText) {
    List<Arg> args = new ArrayList<>();
    for (Object o : items) {
      if (!(o instanceof Spec)) continue;
      Spec s = (Spec) o;
      for (int tries = 0; ; tries++) {
        List<Arg> mine = new ArrayList<>();
        if (s.width == Spec.STAR) mine.add(Directive.starArg(r, r.range(-30, 30)));
        if (s.prec == Spec.STAR) mine.add(Directive.starArg(r, r.range(-3, 30)));
        Object v;
        if (tries >= 6) v = s.conv == 't' || s.conv == 'T' ? (Object) java.time.ZonedDateTime.of(2020, 1, 31, 4, 5, 6, 7, java.time.ZoneId.of("Europe/Paris")) : (Object) 7;
        else if (s.lower() == 's' || s.conv == 'n') v = g.anyText(r, maxText);
        else if (s.conv == 'p') v = g.object(r);
        else v = g.valueFor(r, s.conv);
        mine.add(new Arg(v, s.conv != 'p' && Arg.boxable(v) && r.bool()));
        List<Object> one = new ArrayList<>();
        one.add(s);
        try {
          Expect e = eval(one, mine);
          if (e.refused || e.text.length() > 200_000) continue;
        } catch (Ref.Unspecified e) {
          continue;
        }
        args.addAll(mine);
        break;
      }
    }
    return args;
  }

  long hash() {
    long h = Rng.hash(fmt);
    for (Arg a : args) h = Rng.mix(h, a.hash());
    return h;
  }

  String show() {
    return Lib.show(fmt, args);
  }
}
