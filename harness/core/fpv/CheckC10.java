package fpv;

import java.util.ArrayList;
import java.util.List;

/** Argument consumption. */
public final class CheckC10 extends Check {
  static final String CONV = "diuoxXfFeEgGaAccsSssddnnnTtp";

  @Override
  public String level() {
    return "exploration";
  }

  @Override
  public String rule() {
    return "random directive programs of 0..80 items with literal and dynamic fields, argument lists"
        + " exact, short by 1..all and long with values that fail when touched, and out-of-range dynamic"
        + " fields; non-trivial = at least two arguments consumed; distinct by format and arguments";
  }

  /** Fails whenever it is looked at. */
  static final class Bomb implements CharSequence {
    private static RuntimeException boom() {
      return new IllegalStateException("surplus argument was used");
    }

    @Override
    public int length() {
      throw boom();
    }

    @Override
    public char charAt(int index) {
      throw boom();
    }

    @Override
    public CharSequence subSequence(int start, int end) {
      throw boom();
    }

    @Override
    public String toString() {
      throw boom();
    }
  }

  static final class ObjectBomb {
    @Override
    public String toString() {
      throw Bomb.boom();
    }

    @Override
    public int hashCode() {
      throw Bomb.boom();
    }

    @Override
    public boolean equals(Object o) {
      throw Bomb.boom();
    }
  }

  @Override
  public void run() throws Throwable {
    cases(
        "programs",
        400_000,
        (r, i) -> {
          Program p = Program.random(gen, r, 12, r.chance(1, 30) ? 2000 : 40, CONV);
          judge("programs", i, p.items, p.args, p.fmt, r.below(16));
          if (p.args.size() >= 2) {
            rep.distinct(p.hash());
            if (rep.wantsSamples() && p.fmt.length() < 120) rep.sample(p.show().replace("\n", " "));
          }
          // one short, several short, none
          int n = p.args.size();
          if (n > 0) {
            int k = r.chance(1, 2) ? n - 1 : r.below(n);
            judge("programs", i, p.items, p.args.subList(0, k), p.fmt, r.below(16));
            rep.count("short lists");
          }
          // surplus
          List<Arg> more = new ArrayList<>(p.args);
          for (int k = r.range(1, 4); k > 0; k--) more.add(Arg.of(r.bool() ? new Bomb() : new ObjectBomb()));
          judge("programs", i, p.items, more, p.fmt, r.below(16));
          rep.count("long lists");
        });
    // Dynamic fields of every size, in particular outside the limits.
    cases(
        "fields",
        400_000,
        (r, i) -> {
          List<Object> items = new ArrayList<>();
          List<Arg> args = new ArrayList<>();
          int n = r.range(1, 3);
          for (int k = 0; k < n; k++) {
            Spec s = gen.spec(r, r.pick("dxsfegcsst"));
            s.alt = false;
            if (r.chance(2, 3)) s.width = Spec.STAR;
            else if (s.width > 500) s.width = 9;
            if (r.chance(2, 3)) s.prec = Spec.STAR;
            else if (s.prec > 500) s.prec = 9;
            if (s.width == Spec.STAR) args.add(field(r));
            if (s.prec == Spec.STAR) args.add(field(r));
            Object v = s.conv == 's' ? gen.anyText(r, 30) : gen.valueFor(r, s.conv);
            args.add(new Arg(v, Arg.boxable(v) && r.bool()));
            items.add(s);
            if (r.bool()) items.add("|");
          }
          String fmt = Program.format(items);
          judge("fields", i, items, args, fmt, r.below(16));
          long h = Rng.hash(fmt);
          for (Arg a : args) h = Rng.mix(h, a.hash());
          rep.distinct(h);
        });
  }

  private Arg field(Rng r) {
    int n;
    switch (r.below(8)) {
      case 0:
        n = Ref.LIMIT + r.range(-1, 1);
        break;
      case 1:
        n = -Ref.LIMIT + r.range(-1, 1);
        break;
      case 2:
        n = r.bool() ? Integer.MIN_VALUE + r.below(2) : Integer.MAX_VALUE - r.below(2);
        break;
      case 3:
        n = (int) gen.int64(r);
        break;
      case 4:
        n = (int) gen.dict.pickLong(r);
        break;
      default:
        n = r.range(-40, 40);
    }
    return Directive.starArg(r, n);
  }

  private void judge(String phase, long i, List<Object> items, List<Arg> args, String fmt, int via) {
    Program.Expect e;
    try {
      e = Program.eval(items, args);
    } catch (Ref.Unspecified x) {
      rep.count("left open");
      return;
    }
    if (via == 3) for (Arg a : args) if (a.prim) via = 9;
    Lib.Out o = Lib.formatVia(via, fmt, args);
    rep.judged();
    if (e.refused) rep.count("refusals expected");
    if (e.refused ? !o.refused() : o.error != null || !o.text.equals(e.text)) {
      fail(
          phase,
          i,
          e.refused ? "expected the formatting exception" : "wrong outcome",
          Lib.show(fmt, args)
              + "\nexpected: "
              + (e.refused ? "formatting exception" : Report.quote(e.text))
              + "\nactual:   "
              + o);
    }
  }
}
