package fpv;

import java.util.ArrayList;
import java.util.List;

/** Text and character conversions. */
public final class CheckC07 extends Check {
  @Override
  public String level() {
    return "exploration";
  }

  @Override
  public String rule() {
    return "random (s/S/c, flags, width, precision, argument) cases over texts of all threshold lengths,"
        + " alphabets (ASCII, Latin-1, full UTF-16, letters with special case rules), character-sequence"
        + " kinds, arrays and other objects; non-trivial = non-empty output; distinct by directive and"
        + " argument content";
  }

  @Override
  public void run() throws Throwable {
    cases(
        "text",
        1_200_000,
        (r, i) -> {
          Object v = gen.anyText(r, 70000);
          Spec s = gen.spec(r, r.bool() ? 's' : 'S');
          int n = Ref.text(v).length();
          if (s.prec >= 0 && r.bool()) s.prec = Math.max(0, Math.min(Ref.LIMIT, n + r.range(-3, 2)));
          gen.aimWidth(r, s, v);
          if (Directive.run(this, "text", i, r, s, v)) note(s, v);
        });
    cases(
        "char",
        600_000,
        (r, i) -> {
          Object v;
          switch (r.below(6)) {
            case 0:
              v = (int) r.below(65536);
              break;
            case 1:
              v = gen.sequence(r, 40);
              break;
            case 2:
              v = (byte) r.below(128);
              break;
            case 3:
              v = r.chance(1, 10) ? null : (Object) (long) r.below(65536);
              break;
            default:
              v = (char) (i & 0xFFFF);
          }
          Spec s = gen.spec(r, 'c');
          gen.aimWidth(r, s, v);
          if (Directive.run(this, "char", i, r, s, v)) note(s, v);
        });
    // Every length up to a bound, every conversion, with and without a cut.
    cases(
        "lengths",
        1200,
        (r, i) -> {
          int n = (int) (i % 6000);
          String t = Gen.string(r, n, 6);
          List<CharSequence> forms = new ArrayList<>();
          forms.add(t);
          forms.add(new StringBuilder(t));
          forms.add(new Gen.View("xy" + t + "z", 2, 2 + n));
          forms.add(java.nio.CharBuffer.wrap(t.toCharArray()));
          for (CharSequence v : forms) {
            for (int cut : new int[] {-1, 0, 1, n / 2, n - 1, n, n + 1}) {
              if (cut < -1) continue;
              for (int w : new int[] {-1, n + 1, n + 17}) {
                Spec s = new Spec(r.bool() ? 's' : 'S');
                s.prec = cut;
                s.width = w;
                s.minus = r.bool();
                Directive.judge(this, "lengths", i, s, v, s.text(), Lib.list(Arg.of(v)), "", "", r.below(6));
                note(s, v);
              }
            }
          }
        });
    // Case mapping of every char value.
    cases(
        "case",
        256,
        (r, i) -> {
          char[] a = new char[256];
          for (int k = 0; k < 256; k++) a[k] = (char) (i * 256 + k);
          String t = new String(a);
          for (Object v : new Object[] {t, new StringBuilder(t), a.clone(), new Gen.Named(t)}) {
            for (char c : new char[] {'s', 'S'}) {
              Spec s = new Spec(c);
              Directive.judge(this, "case", i, s, v, s.text(), Lib.list(Arg.of(v)), "", "", r.below(6));
              note(s, v);
            }
          }
        });
  }

  private void note(Spec s, Object v) {
    rep.distinct(Directive.hash(s, v));
    rep.count("kind " + (v == null ? "null" : v.getClass().getSimpleName()));
    if (rep.wantsSamples()) rep.sample(s.text() + " of " + Arg.describe(v));
  }
}
