package fpv;

/** Fixed and scientific conversions of doubles and floats. */
public final class CheckC02 extends Check {
  @Override
  public String level() {
    return "exploration";
  }

  @Override
  public String rule() {
    return "random (conversion, flags, width, precision, double or float) cases biased to ties, carry"
        + " chains, neighbours of powers of ten, every binary exponent and special values; non-trivial ="
        + " finite value whose digits are rounded or padded; distinct by directive text and value bits";
  }

  @Override
  public void run() throws Throwable {
    cases(
        "random",
        4_000_000,
        (r, i) -> {
          Object v = gen.floating(r);
          Spec s = gen.spec(r, r.pick("fFeE"));
          if (r.chance(1, 3) && s.prec > 20) s.prec = r.below(18);
          gen.aimWidth(r, s, v);
          if (Directive.run(this, "random", i, r, s, v)) note(s, v);
        });
    // Rounding at every digit position of a value, from none to all of its digits.
    cases(
        "positions",
        150_000,
        (r, i) -> {
          double d = gen.float64(r);
          if (Double.isNaN(d) || Double.isInfinite(d)) d = r.range(-1000000, 1000000) / 64.0;
          boolean e = r.bool();
          Ref.Dec dec = Ref.dec(d);
          int top = e ? dec.digits.length() + 1 : (int) Math.min(400, Math.max(2, dec.digits.length() - dec.exp + 2));
          int lo = e ? 0 : Math.max(0, top - 22);
          for (int p = lo; p <= top; p++) {
            Spec s = new Spec(e ? 'e' : 'f');
            s.prec = p;
            s.alt = p == 0 && r.bool();
            Directive.judge(this, "positions", i, s, d, s.text(), Lib.list(new Arg(d, r.bool())), "", "", 99);
            note(s, d);
          }
        });
  }

  private void note(Spec s, Object v) {
    double d = ((Number) v).doubleValue();
    if (Double.isNaN(d) || Double.isInfinite(d)) {
      rep.count("non-finite values");
      return;
    }
    rep.distinct(Directive.hash(s, v));
    if (rep.wantsSamples()) rep.sample(s.text() + " of " + Arg.describe(v));
  }
}
