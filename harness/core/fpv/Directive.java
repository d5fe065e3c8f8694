package fpv;

import java.util.ArrayList;
import java.util.List;

/** Runs one directive on one argument and judges the outcome against the reference. */
final class Directive {
  private Directive() {}

  /** Writes some literal widths/precisions as '*' arguments. */
  static Spec starify(Rng r, Spec s, List<Arg> args) {
    Spec t = s.clone();
    if (s.width >= 0 && r.chance(1, 5)) {
      t.width = Spec.STAR;
      int w = s.minus && r.bool() ? -s.width : s.width;
      args.add(starArg(r, w));
    } else if (s.width < 0 && r.chance(1, 60)) {
      t.width = Spec.STAR;
      args.add(starArg(r, 0));
    }
    if (s.prec >= 0 && r.chance(1, 5)) {
      t.prec = Spec.STAR;
      args.add(starArg(r, s.prec));
    } else if (s.prec < 0 && r.chance(1, 30)) {
      t.prec = Spec.STAR;
      args.add(starArg(r, -1 - r.below(70000)));
    }
    return t;
  }

  static Arg starArg(Rng r, int n) {
    switch (r.below(8)) {
      case 0:
        return Arg.of((long) n);
      case 1:
        return (short) n == n ? Arg.of((short) n) : Arg.of(n);
      case 2:
        return (byte) n == n ? Arg.of((byte) n) : Arg.of(n);
      case 3:
        return Arg.of(Integer.toString(n));
      case 4:
        return new Arg(n, true);
      default:
        return Arg.of(n);
    }
  }

  static boolean run(Check c, String phase, long index, Rng r, Spec s, Object v) {
    return run(c, phase, index, r, s, v, true);
  }

  /**
   * @return true if the case was decided
   */
  static boolean run(
      Check c, String phase, long index, Rng r, Spec s, Object v, boolean varyEntry) {
    List<Arg> args = new ArrayList<>(3);
    Spec written = starify(r, s, args);
    args.add(new Arg(v, Arg.boxable(v) && r.bool()));
    String pre = r.chance(1, 10) ? Gen.string(r, r.below(20), 6) : "";
    String post = r.chance(1, 10) ? Gen.string(r, r.below(20), 6) : "";
    String fmt = pre + written.text() + post;
    int via = varyEntry ? r.below(16) : 99;
    return judge(c, phase, index, s, v, fmt, args, pre, post, via);
  }

  static boolean judge(
      Check c,
      String phase,
      long index,
      Spec s,
      Object v,
      String fmt,
      List<Arg> args,
      String pre,
      String post,
      int via) {
    Report rep = c.rep;
    String want = null;
    boolean refused = false;
    try {
      if (!Ref.openForm(s, v)) want = Ref.render(s, v);
    } catch (Ref.Refused e) {
      refused = true;
    } catch (Ref.Unspecified e) {
      return false;
    }
    Lib.Out out = via == 3 && hasPrim(args) ? Lib.format(fmt, args) : Lib.formatVia(via, fmt, args);
    rep.judged();
    String problem = null;
    if (refused) {
      if (!out.refused()) problem = "expected the formatting exception";
    } else if (out.error != null) {
      problem = "unexpected exception";
    } else if (want != null) {
      if (!out.text.equals(pre + want + post)) problem = "wrong text";
    } else {
      String t = out.text;
      if (!t.startsWith(pre)
          || !t.endsWith(post)
          || t.length() < pre.length() + post.length()) {
        problem = "literal text";
      } else {
        problem = Ref.judgeOpen(s, v, t.substring(pre.length(), t.length() - post.length()));
      }
    }
    if (problem != null) {
      StringBuilder sb = new StringBuilder(Lib.show(fmt, args));
      sb.append("\nexpected: ")
          .append(refused ? "formatting exception" : want == null ? "(open form)" : Report.quote(pre + want + post));
      sb.append("\nactual:   ").append(out);
      if (out.error != null) {
        for (int k = 0; k < Math.min(12, out.error.getStackTrace().length); k++) {
          sb.append("\n  at ").append(out.error.getStackTrace()[k]);
        }
      }
      c.fail(phase, index, problem, sb.toString());
      return true;
    }
    if (refused) rep.count("refusals observed");
    else if (want == null) rep.count("open forms judged");
    else rep.count("texts compared");
    return true;
  }

  private static boolean hasPrim(List<Arg> a) {
    for (Arg g : a) if (g.prim) return true;
    return false;
  }

  static long hash(Spec s, Object v) {
    return Rng.mix(Rng.hash(s.text()), Arg.of(v).hash());
  }
}
