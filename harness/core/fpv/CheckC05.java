package fpv;

/** Hexadecimal floats. */
public final class CheckC05 extends Check {
  @Override
  public String level() {
    return "exploration";
  }

  @Override
  public String rule() {
    return "random (a/A, flags, width, precision, double or float) cases plus every binary exponent x"
        + " structured significands x precisions 0..14; output without precision is also read back;"
        + " non-trivial = finite and non-zero; distinct by directive text and value bits";
  }

  @Override
  public void run() throws Throwable {
    cases(
        "random",
        3_000_000,
        (r, i) -> {
          Object v = gen.floating(r);
          Spec s = gen.spec(r, r.pick("aA"));
          if (r.chance(2, 3) && s.prec > 14) s.prec = r.below(15);
          gen.aimWidth(r, s, v);
          if (Directive.run(this, "random", i, r, s, v)) note(s, v);
        });
    cases(
        "exponents",
        2048 * 12,
        (r, i) -> {
          long e = i % 2048;
          double d = Double.longBitsToDouble(e << 52 | Gen.significand(r));
          if (r.bool()) d = -d;
          for (int p = -1; p <= 14; p++) {
            Spec s = new Spec(r.bool() ? 'a' : 'A');
            s.prec = p;
            Directive.judge(this, "exponents", i, s, d, s.text(), Lib.list(new Arg(d, r.bool())), "", "", 99);
            note(s, d);
          }
          if (Double.isNaN(d) || Double.isInfinite(d)) return;
          for (String f : new String[] {"%a", "%+A", "% a", "%.13a", "%030a"}) {
            Lib.Out o = Lib.format(f, new Arg(d, true));
            double back;
            try {
              back = Double.parseDouble(o.text.trim());
            } catch (RuntimeException x) {
              back = Double.NaN;
            }
            if (Double.doubleToLongBits(back) != Double.doubleToLongBits(d)) {
              fail("exponents", i, "does not read back", Lib.show(f, Lib.list(new Arg(d, true))) + "\nactual: " + o);
            }
            rep.count("literals read back");
            rep.judged();
          }
        });
  }

  private void note(Spec s, Object v) {
    double d = ((Number) v).doubleValue();
    if (Double.isNaN(d) || Double.isInfinite(d) || d == 0) return;
    rep.distinct(Directive.hash(s, v));
    if (rep.wantsSamples()) rep.sample(s.text() + " of " + Arg.describe(v));
  }
}
