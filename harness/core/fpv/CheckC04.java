package fpv;

import java.math.BigDecimal;
import java.math.BigInteger;

/** Exact formatting of arbitrary-precision numbers. */
public final class CheckC04 extends Check {
  @Override
  public String level() {
    return "exploration";
  }

  @Override
  public String rule() {
    return "random (f/F/e/E, flags, width, precision, decimal or big integer) cases; every decimal is"
        + " also printed in a numerically equal form of another scale; non-trivial = rounding, padding or"
        + " a non-zero scale is involved; distinct by directive text and unscaled value/scale";
  }

  @Override
  public void run() throws Throwable {
    cases(
        "random",
        1_500_000,
        (r, i) -> {
          Spec s = gen.spec(r, r.pick("fFeE"));
          boolean e = s.lower() == 'e';
          Object v;
          if (r.chance(1, 5)) {
            v = gen.bigInteger(r);
          } else {
            BigDecimal b = gen.bigDecimal(r, r.chance(1, 20) ? 3000 : 60);
            if (r.chance(1, 10)) {
              int x = extreme(r);
              // f-style needs a printable size: large scales make tiny numbers
              if (!e && x < -3000) x = x == Integer.MIN_VALUE ? Integer.MAX_VALUE : -x;
              b = new BigDecimal(b.unscaledValue(), x);
            }
            v = b;
          }
          if (r.chance(1, 3)) aimPrec(r, s, v, e);
          gen.aimWidth(r, s, v);
          if (!Directive.run(this, "random", i, r, s, v)) return;
          rep.distinct(Directive.hash(s, v));
          if (rep.wantsSamples()) rep.sample(s.text() + " of " + Arg.describe(v));
          // same number, different scale
          if (v instanceof BigDecimal && Math.abs((long) ((BigDecimal) v).scale()) < 5000) {
            BigDecimal b = (BigDecimal) v;
            BigDecimal twin = r.bool() ? b.setScale(b.scale() + r.range(1, 9)) : strip(b);
            Directive.judge(
                this, "random", i, s, twin, s.text(), Lib.list(Arg.of(twin)), "", "", 99);
            rep.count("equal values of another scale");
          } else if (v instanceof BigInteger) {
            BigDecimal twin = new BigDecimal((BigInteger) v);
            Directive.judge(
                this, "random", i, s, twin, s.text(), Lib.list(Arg.of(twin)), "", "", 99);
            rep.count("equal values of another scale");
          }
        });
    sizes();
  }

  private void sizes() throws Throwable {
    cases(
        "sizes",
        400,
        (r, i) -> {
          Spec s = gen.spec(r, r.pick("fFeE"));
          Object v = r.chance(1, 4) ? (Object) Gen.hugeInteger(r) : Gen.hugeDecimal(r);
          if (r.chance(2, 3)) aimPrec(r, s, v, s.lower() == 'e');
          gen.aimWidth(r, s, v);
          if (Directive.run(this, "sizes", i, r, s, v)) rep.distinct(Directive.hash(s, v));
        });
  }

  private static BigDecimal strip(BigDecimal b) {
    return b.signum() == 0 ? BigDecimal.ZERO : b.stripTrailingZeros();
  }

  private static int extreme(Rng r) {
    switch (r.below(4)) {
      case 0:
        return Integer.MAX_VALUE - r.below(3);
      case 1:
        return Integer.MIN_VALUE + 10 + r.below(3);
      case 2:
        return r.range(-1000000000, 1000000000);
      default:
        return (r.bool() ? 1 : -1) * new int[] {8, 9, 10, 11, 98, 99, 100, 101, 999, 1000}[r.below(10)];
    }
  }

  /** Puts the cut close to the digits that exist. */
  private static void aimPrec(Rng r, Spec s, Object v, boolean e) {
    Ref.Dec d = Ref.dec(v instanceof BigInteger ? new BigDecimal((BigInteger) v) : (BigDecimal) v);
    long n = e ? d.digits.length() - 1 : d.digits.length() - d.exp;
    long p = n + r.range(-3, 2);
    if (!e && r.bool()) p = -d.exp + r.range(-2, 2);
    if (p >= 0 && p <= 65536) s.prec = (int) p;
  }
}
