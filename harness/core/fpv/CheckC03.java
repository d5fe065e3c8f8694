package fpv;

import java.math.BigDecimal;

/** General conversion of doubles, floats and decimals. */
public final class CheckC03 extends Check {
  @Override
  public String level() {
    return "exploration";
  }

  @Override
  public String rule() {
    return "random (g/G, flags, width, precision, number) cases, half of them placed within a few"
        + " units of a notation switch (10^-4 and 10^precision); non-trivial = finite; distinct by"
        + " directive text and value";
  }

  @Override
  public void run() throws Throwable {
    cases(
        "random",
        3_000_000,
        (r, i) -> {
          Object v;
          int k = r.below(10);
          if (k < 4) v = gen.floating(r);
          else if (k < 8) v = gen.bigDecimal(r, 60);
          else if (k == 8 && r.bool()) v = new BigDecimal(gen.bigInteger(r), r.bool() ? (int) r.next() : r.range(-2000, 2000));
          else if (k == 8) v = gen.bigInteger(r);
          else v = gen.integer(r);
          Spec s = gen.spec(r, r.pick("gG"));
          if (r.bool() && s.prec > 20) s.prec = r.below(18);
          gen.aimWidth(r, s, v);
          if (Directive.run(this, "random", i, r, s, v)) note(s, v);
        });
    cases(
        "switch",
        2_000_000,
        (r, i) -> {
          Spec s = gen.spec(r, r.pick("gG"));
          if (s.prec > 40) s.prec = r.below(20);
          if (r.bool()) s.width = Spec.NONE;
          int p = s.prec < 0 ? 6 : Math.max(1, s.prec);
          int x = r.bool() ? -4 + r.range(-1, 1) : p + r.range(-1, 1);
          BigDecimal b = BigDecimal.ONE.scaleByPowerOfTen(x);
          // one unit, half a unit or a sliver below or above the power of ten
          int depth = r.bool() ? p + r.range(-1, 2) : r.range(1, 20);
          BigDecimal ulp = BigDecimal.ONE.scaleByPowerOfTen(x - depth);
          BigDecimal delta =
              ulp.multiply(BigDecimal.valueOf(new long[] {0, 1, 2, 4, 5, 6, 9, 50, 49, 51}[r.below(10)]));
          if (r.bool()) delta = delta.movePointLeft(1);
          b = r.chance(2, 3) ? b.subtract(delta) : b.add(delta);
          if (r.chance(1, 4)) b = b.multiply(BigDecimal.valueOf(r.range(1, 9)));
          if (r.chance(1, 4)) b = b.setScale(b.scale() + r.range(1, 6));
          if (r.chance(1, 4)) b = b.negate();
          Object v;
          int k = r.below(5);
          if (k < 2) v = b;
          else if (k < 4) v = b.doubleValue();
          else v = b.floatValue();
          if (Directive.run(this, "switch", i, r, s, v)) note(s, v);
        });
    sizes();
  }

  private void sizes() throws Throwable {
    cases(
        "sizes",
        400,
        (r, i) -> {
          BigDecimal v = Gen.hugeDecimal(r);
          Spec s = gen.spec(r, r.pick("gG"));
          if (r.bool()) {
            // the border between the notations, or the last digits
            long x = (long) v.precision() - v.scale() - 1;
            long p = r.bool() ? x + r.range(-1, 3) : v.precision() + r.range(-3, 2);
            if (p >= 0 && p <= 65536) s.prec = (int) p;
          }
          gen.aimWidth(r, s, v);
          if (Directive.run(this, "sizes", i, r, s, v)) note(s, v);
        });
  }

  private void note(Spec s, Object v) {
    if (v instanceof Number) {
      double d = ((Number) v).doubleValue();
      if (Double.isNaN(d) || Double.isInfinite(d) && !(v instanceof java.math.BigInteger)) {
        rep.count("non-finite values");
        return;
      }
    }
    rep.distinct(Directive.hash(s, v));
    if (rep.wantsSamples()) rep.sample(s.text() + " of " + Arg.describe(v));
  }
}
