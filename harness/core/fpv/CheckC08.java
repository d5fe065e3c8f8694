package fpv;

import java.util.ArrayList;
import java.util.List;

/**
 * Field width law. Decided from observed outputs only: the output without width is the base, every
 * other output must be that base plus padding.
 */
public final class CheckC08 extends Check {
  @Override
  public String level() {
    return "exploration";
  }

  @Override
  public String rule() {
    return "groups of calls: one directive and argument printed without width and then at several"
        + " literal and dynamic widths around the natural length and at the limits; non-trivial = padding"
        + " was added; distinct by directive and argument";
  }

  @Override
  public void run() throws Throwable {
    cases("law", 400_000, (r, i) -> group(r, i));
  }

  private void group(Rng r, long i) {
    char conv = r.pick("diuoxXfFeEgGaAcsStTp");
    Spec s = gen.spec(r, conv);
    s.width = Spec.NONE;
    if (s.prec > 300) s.prec %= 300;
    Object v = conv == 'p' ? r.chance(1, 8) ? null : new Gen.Named("x") : gen.valueFor(r, conv);
    if (v instanceof CharSequence && ((CharSequence) v).length() > 3000) v = "long";
    Arg arg = Arg.of(v);
    String f0 = s.text();
    Lib.Out base = Lib.format(f0, arg);
    if (base.error != null) {
      // Refusals are the business of other properties; they must not depend on the width though.
      Spec t = s.clone();
      t.width = r.range(1, 60);
      Lib.Out o = Lib.format(t.text(), arg);
      rep.count("refused bases");
      rep.judged();
      if (o.error == null || o.error.getClass() != base.error.getClass()) {
        fail("law", i, "width changes a refusal", Lib.show(t.text(), Lib.list(arg)) + "\nwithout width: " + base + "\nwith: " + o);
      }
      return;
    }
    String b = base.text;
    int n = b.length();
    int[] ws = {
      1, n - 1, n, n + 1, n + 2, n + r.range(3, 20), n + 16, r.range(1, 140),
      r.chance(1, 40) ? Ref.LIMIT - r.below(2) : n + r.range(1, 40), gen.width(r), 0
    };
    for (int w : ws) {
      if (w < 0 || w > Ref.LIMIT) continue;
      Spec t = s.clone();
      t.width = w;
      String want = expected(t, b);
      boolean added = want.length() > n;
      // dynamic
      Spec d = t.clone();
      d.width = Spec.STAR;
      one(i, d.text(), Lib.list(Directive.starArg(r, w), arg), want, f0, b);
      if (w > 0) {
        one(i, t.text(), Lib.list(arg), want, f0, b);
        // negative dynamic width means left-justified
        Spec m = t.clone();
        m.minus = true;
        one(i, d.text(), Lib.list(Directive.starArg(r, -w), arg), expected(m, b), f0, b);
      }
      if (added) rep.distinct(Rng.mix(Directive.hash(t, v), w));
    }
    rep.count("groups");
    if (rep.wantsSamples()) rep.sample(f0 + " of " + Arg.describe(v) + " at widths around " + n);
  }

  private void one(long i, String fmt, List<Arg> args, String want, String f0, String base) {
    Lib.Out o = Lib.format(fmt, new ArrayList<>(args));
    rep.judged();
    if (o.error != null || !o.text.equals(want)) {
      fail(
          "law",
          i,
          "field width law",
          Lib.show(fmt, args)
              + "\nwithout width ("
              + f0
              + "): "
              + Report.quote(base)
              + "\nexpected: "
              + Report.quote(want)
              + "\nactual:   "
              + o);
    }
  }

  static String expected(Spec s, String b) {
    int pad = s.width - b.length();
    if (pad <= 0) return b;
    if (s.minus) return b + Ref.rep(' ', pad);
    char c = s.lower();
    boolean numeric = "diuoxfega".indexOf(c) >= 0;
    boolean integer = "diuox".indexOf(c) >= 0;
    if (s.zero && numeric && !(integer && s.prec != Spec.NONE)) {
      int k = 0;
      if (k < b.length() && "+- ".indexOf(b.charAt(k)) >= 0) k++;
      boolean finite = k < b.length() && b.charAt(k) >= '0' && b.charAt(k) <= '9';
      if (finite || integer) {
        if (b.startsWith("0x", k) || b.startsWith("0X", k)) k += 2;
        // hexadecimal digits may be letters
        return b.substring(0, k) + Ref.rep('0', pad) + b.substring(k);
      }
    }
    return Ref.rep(' ', pad) + b;
  }
}
