package fpv;

import io.fastprintf.FastPrintf;
import io.fastprintf.PrintfException;
import io.fastprintf.PrintfSyntaxException;
import java.util.ArrayList;
import java.util.List;

/** Format grammar. */
public final class CheckC09 extends Check {
  static final String[] TOKENS = {
    "%", "%", "%", "%%", "%%", "-", "+", " ", "#", "0", "1", "5", "12", "65536", "65537", "65535",
    "2147483647", "2147483648", "4294967297", "99999999999999999999", "*", ".", ".", "..", ".*", ".0",
    ".5", "d", "i", "u", "o", "x", "X", "f", "F", "e", "E", "g", "G", "a", "A", "c", "C", "s", "S", "t",
    "T", "n", "p", "P", "b", "h", "l", "ll", "L", "z", "j", "q", "y", "{", "}", "{}", "{yyyy}",
    "{yyyy-MM-dd HH:mm}", "{'}'}", "{''}", "{'", "{bbb}", "'", "''", "$", "1$", "٠", "٣",
    "５", "％", "\u0000", "😀", "\ud83d", "\n", "lit", "<", "("
  };

  @Override
  public String level() {
    return "exploration";
  }

  @Override
  public String rule() {
    return "format strings: grammar-derived, mutated, truncated, token soup, all short tails over a"
        + " 13-letter alphabet, and very long ones; non-trivial = contains a directive or an error;"
        + " distinct by format text";
  }

  @Override
  public void run() throws Throwable {
    cases("grammar", 150_000, (r, i) -> check("grammar", i, r, valid(r)));
    cases(
        "mutated",
        400_000,
        (r, i) -> {
          StringBuilder sb = new StringBuilder(valid(r));
          int n = r.range(1, 3);
          for (int k = 0; k < n; k++) mutate(r, sb);
          check("mutated", i, r, sb.toString());
        });
    cases(
        "soup",
        500_000,
        (r, i) -> {
          StringBuilder sb = new StringBuilder();
          int n = r.range(1, 14);
          for (int k = 0; k < n; k++) {
            if (r.chance(1, 40)) sb.append(gen.dict.pickString(r));
            else sb.append(TOKENS[r.below(TOKENS.length)]);
          }
          check("soup", i, r, sb.toString());
        });
    // One directive built from grammar parts in the right order, each part sometimes wrong.
    cases(
        "near",
        500_000,
        (r, i) -> {
          StringBuilder sb = new StringBuilder();
          if (r.chance(1, 3)) sb.append(gen.string(r, 6).replace("%", ""));
          sb.append('%');
          for (int k = r.below(4); k > 0; k--) sb.append("-+ #0".charAt(r.below(5)));
          if (r.bool()) sb.append(r.chance(1, 5) ? "*" : r.chance(1, 6) ? gen.dict.pickString(r) : num(r));
          if (r.bool()) sb.append('.').append(r.chance(1, 5) ? "*" : r.chance(1, 6) ? "" : num(r));
          sb.append(r.chance(1, 12) ? Gen.ch(r, r.below(7)) : r.pick(Grammar.CONV));
          if (r.chance(1, 5)) sb.append(TOKENS[r.below(TOKENS.length)]);
          check("near", i, r, sb.toString());
        });
    // date-time patterns of any letters, padding, sections and quotes
    cases(
        "patterns",
        150_000,
        (r, i) -> {
          StringBuilder sb = new StringBuilder(r.bool() ? "%t{" : "%-30T{");
          for (int k = r.range(1, 6); k > 0; k--) {
            switch (r.below(12)) {
              case 0:
                sb.append(Ref.rep('p', r.range(1, 4)));
                break;
              case 1:
                sb.append(r.pick("[]'#{}[]"));
                break;
              case 2:
                sb.append(r.pick(" -:./,%\"!|_"));
                break;
              case 3:
                sb.append('\'').append(Gen.string(r, r.below(4), r.below(7)).replace("'", "''")).append('\'');
                break;
              default:
                {
                  char c = r.chance(1, 6) ? (char) (r.range('a', 'z') - (r.bool() ? 32 : 0)) : r.pick("GuyDMLdQqYwWEecFahKkHmsSAnNVzOXxZB");
                  sb.append(Ref.rep(c, r.chance(1, 10) ? r.range(1, 21) : r.range(1, 4)));
                }
            }
          }
          if (!r.chance(1, 10)) sb.append('}');
          check("patterns", i, r, sb.append(r.bool() ? "" : "%d").toString());
        });
    String alphabet = "%-+0 5.*dst{}'";
    int a = alphabet.length();
    long all = 1L * a * a * a * a;
    cases(
        "tails",
        all,
        (r, i) -> {
          long k = i % all;
          StringBuilder sb = new StringBuilder("%");
          for (int j = 0; j < 4; j++) {
            sb.append(alphabet.charAt((int) (k % a)));
            k /= a;
          }
          check("tails", i, r, sb.toString());
        });
    // every char as conversion, as flag and as literal
    cases(
        "chars",
        65536,
        (r, i) -> {
          char c = (char) i;
          check("chars", i, r, "%" + c);
          check("chars", i, r, "%" + c + "d");
          check("chars", i, r, "%5" + c);
          check("chars", i, r, "%.2" + c);
          check("chars", i, r, "a" + c + "%d" + c);
          check("chars", i, r, "%t{" + c + "}");
        });
    cases("long", 60, (r, i) -> check("long", i, r, huge(r)));
  }

  private String num(Rng r) {
    switch (r.below(5)) {
      case 0:
        return Integer.toString(Ref.LIMIT + r.range(-2, 2));
      case 1:
        return Ref.rep('0', r.below(30)) + r.below(30);
      case 2:
        return Long.toString(Math.abs(gen.int64(r) == Long.MIN_VALUE ? 0 : gen.int64(r)) & Long.MAX_VALUE);
      default:
        return Integer.toString(r.below(300));
    }
  }

  String valid(Rng r) {
    List<Object> items = new ArrayList<>();
    int n = r.range(1, 6);
    for (int i = 0; i < n; i++) {
      if (r.chance(1, 3)) {
        items.add(Program.literal(gen, r, 30));
      } else {
        Spec s = gen.spec(r, r.pick(Grammar.CONV));
        if (r.chance(1, 6)) s.width = Spec.STAR;
        if (r.chance(1, 6)) s.prec = Spec.STAR;
        if (s.lower() == 't' && r.bool()) s.pattern = PATTERNS[r.below(PATTERNS.length)];
        items.add(s);
      }
    }
    return Program.format(items);
  }

  private static final String[] PATTERNS = {
    "yyyy", "yyyy-MM-dd", "HH:mm:ss.SSS", "'}'", "'}'yyyy'{'", "yyyy'}''{'MM", "''yyyy''", "'a''}b'uuuu",
    "EEE, d MMM", "[HH:mm]", "yyyy{", "Q", "'%d'HH", "%yyyy"
  };

  void mutate(Rng r, StringBuilder sb) {
    int n = sb.length();
    int at = n == 0 ? 0 : r.below(n);
    // aim at directives
    if (r.bool()) {
      int q = sb.toString().indexOf('%', at);
      if (q >= 0) at = Math.min(n - 1, q + r.below(6));
    }
    switch (r.below(6)) {
      case 0:
        if (n > 0) sb.deleteCharAt(at);
        break;
      case 1:
        sb.insert(at, TOKENS[r.below(TOKENS.length)]);
        break;
      case 2:
        if (n > 0) sb.setCharAt(at, "%-+0 5.*dst{}'z".charAt(r.below(15)));
        break;
      case 3:
        sb.setLength(at);
        break;
      case 4:
        if (n > 0) sb.insert(at, sb.charAt(at));
        break;
      default:
        sb.insert(at, Gen.ch(r, r.below(7)));
    }
  }

  private String huge(Rng r) {
    StringBuilder sb = new StringBuilder();
    int n = r.pick(new int[] {3000, 10000, 30000, 70000});
    switch (r.below(5)) {
      case 0:
        for (int i = 0; i < n; i++) sb.append("%d");
        break;
      case 1:
        for (int i = 0; i < n; i++) sb.append("%%");
        break;
      case 2:
        for (int i = 0; i < n; i++) sb.append("%s x").append(i % 7);
        break;
      case 3:
        sb.append(Gen.string(r, n * 10, 1).replace("%", "q")).append("%d").append(Gen.string(r, n, 1).replace("%", "q"));
        break;
      default:
        for (int i = 0; i < n; i++) sb.append(r.bool() ? "%-5.3s" : "a%%b%x");
    }
    if (r.chance(1, 4)) sb.append(r.bool() ? "%" : "%y");
    return sb.toString();
  }

  private void check(String phase, long i, Rng r, String f) {
    Grammar g = Grammar.parse(f);
    if (g.open && g.malformed < 0 && g.overLimit < 0) {
      // '%' as a conversion with flags: accepted or refused, but nothing else may escape.
    }
    Throwable t = null;
    FastPrintf fp = null;
    try {
      fp = FastPrintf.compile(f);
    } catch (Throwable x) {
      t = x;
    }
    rep.judged();
    String problem = null;
    boolean syntax = t instanceof PrintfSyntaxException;
    boolean formatting = t instanceof PrintfException;
    if (t == null) {
      if (!g.accepted()) {
        // an open directive may hide what follows it
        problem = g.open ? null : "malformed format accepted";
      }
    } else if (!syntax && !formatting) {
      problem = "another exception escaped";
    } else if (g.accepted()) {
      if (!g.open) problem = "well-formed format rejected";
    } else if (formatting && !syntax && g.overLimit < 0 && !g.open) {
      problem = "not the syntax exception";
    }
    if (problem == null && syntax) {
      PrintfSyntaxException s = (PrintfSyntaxException) t;
      int from = g.open ? 0 : g.malformed < 0 ? g.overLimit : g.overLimit < 0 ? g.malformed : Math.min(g.malformed, g.overLimit);
      String msg = null;
      try {
        msg = s.getMessage();
      } catch (Throwable x) {
        problem = "the message cannot be read: " + x;
      }
      if (problem == null && !f.equals(s.getPattern())) problem = "the exception does not carry the format";
      else if (problem == null && (s.getIndex() < from || s.getIndex() > f.length())) {
        problem = "index " + s.getIndex() + " outside " + from + ".." + f.length();
      } else if (problem == null && (msg == null || !msg.contains(f))) problem = "the message lacks the format";
      rep.count("syntax exceptions judged");
    }
    if (problem != null) {
      fail(phase, i, problem, "format " + Report.quote(f) + "\nactual: " + (t == null ? "compiled" : t.toString()));
      return;
    }
    if (g.malformed >= 0 || !g.items.isEmpty() && g.items.get(0) instanceof Spec || g.items.size() > 1) {
      rep.distinct(Rng.hash(f));
      if (rep.wantsSamples() && f.length() < 60) rep.sample(Report.quote(f) + (t == null ? " compiles" : " rejected"));
    }
    if (t != null || g.open) return;
    if (f.length() > 400 && !phase.equals("long")) return;
    // What was compiled is what was written.
    List<Arg> args = new ArrayList<>();
    boolean time = false;
    for (Object o : g.items) {
      if (!(o instanceof Spec)) continue;
      Spec s = (Spec) o;
      if (s.width == Spec.STAR) args.add(Arg.of(3));
      if (s.prec == Spec.STAR) args.add(Arg.of(2));
      switch (s.lower()) {
        case 't':
          time = true;
          args.add(Arg.of(java.time.ZonedDateTime.of(2024, 2, 29, 23, 58, 59, 7_000_000, java.time.ZoneOffset.UTC)));
          break;
        case 'c':
          args.add(Arg.of('q'));
          break;
        case 's':
          args.add(Arg.of("abcdefgh"));
          break;
        case 'p':
          args.add(Arg.of(null));
          break;
        case 'f':
        case 'e':
        case 'g':
        case 'a':
          args.add(Arg.of(1.5));
          break;
        default:
          args.add(Arg.of(42));
      }
    }
    Program.Expect e;
    try {
      e = Program.eval(g.items, args);
    } catch (Ref.Unspecified x) {
      return;
    }
    final FastPrintf c = fp;
    Lib.Out o = Lib.call(() -> c.format(Lib.args(args)));
    rep.count("outputs of compiled formats compared");
    if (time) rep.count("with date-time directives");
    if (e.refused ? !o.refused() : o.error != null || !o.text.equals(e.text)) {
      fail(phase, i, "compiled format means something else", Lib.show(f, args) + "\nexpected: " + (e.refused ? "refused" : Report.quote(e.text)) + "\nactual: " + o);
    }
  }
}
