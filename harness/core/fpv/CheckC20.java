package fpv;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.DayOfWeek;
import java.time.Duration;
import java.time.Instant;
import java.time.LocalDate;
import java.time.LocalTime;
import java.time.OffsetDateTime;
import java.time.Year;
import java.time.YearMonth;
import java.time.ZoneOffset;
import java.time.ZonedDateTime;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Calendar;
import java.util.Collections;
import java.util.Date;
import java.util.GregorianCalendar;
import java.util.List;
import java.util.Locale;
import java.util.Optional;
import java.util.TimeZone;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.atomic.AtomicLong;

/** Every argument type with every conversion. */
public final class CheckC20 extends Check {
  static final String CONV = "diuoxXfFeEgGaAsSctTpn";
  static final int KINDS = 34;

  @Override
  public String level() {
    return "exploration";
  }

  @Override
  public String rule() {
    return KINDS
        + " argument kinds x "
        + CONV.length()
        + " conversions in value position and as dynamic width or precision, each pairing with random and"
        + " boundary values; distinct by directive and arguments; pairs_covered counts the pairings";
  }

  @Override
  public void run() throws Throwable {
    // the pairing is a function of the case number, so all pairings are visited evenly
    int pairs = KINDS * CONV.length();
    java.util.concurrent.atomic.AtomicLongArray ok = new java.util.concurrent.atomic.AtomicLongArray(pairs);
    java.util.concurrent.atomic.AtomicLongArray no = new java.util.concurrent.atomic.AtomicLongArray(pairs);
    cases(
        "pairs",
        pairs * 1500L,
        (r, i) -> {
          int pair = (int) (i % pairs);
          Object v = value(r, pair / CONV.length());
          Spec s = gen.spec(r, CONV.charAt(pair % CONV.length()));
          if (s.width > 300) s.width = 30;
          if (s.prec > 300) s.prec = 30;
          if (s.lower() == 't' && r.chance(1, 3)) s.pattern = r.pick(new String[] {"uuuu", "HH:mm", "uuuu-MM-dd", "XXX", "EEE"});
          if (s.conv != 'p') gen.aimWidth(r, s, v);
          List<Object> items = new ArrayList<>();
          List<Arg> args = new ArrayList<>();
          Spec w = Directive.starify(r, s, args);
          items.add(w);
          args.add(new Arg(v, Arg.boxable(v) && r.bool()));
          int res = judge("pairs", i, items, args, r.below(12));
          if (res == 1) ok.incrementAndGet(pair);
          if (res == 2) no.incrementAndGet(pair);
        });
    int covered = 0, both = 0, refusing = 0;
    for (int k = 0; k < pairs; k++) {
      if (ok.get(k) + no.get(k) > 0) covered++;
      if (ok.get(k) > 0 && no.get(k) > 0) both++;
      if (ok.get(k) == 0 && no.get(k) > 0) refusing++;
    }
    rep.extra("pairs_covered", covered);
    rep.extra("pairs_always_refused", refusing);
    rep.extra("pairs_depending_on_value", both);
    cases(
        "fields",
        KINDS * 8000L,
        (r, i) -> {
          // arguments of any kind where a width or precision is taken
          List<Object> items = new ArrayList<>();
          List<Arg> args = new ArrayList<>();
          Spec s = gen.spec(r, r.pick("dxsfegc"));
          s.alt = false;
          if (s.width > 300) s.width = 30;
          if (s.prec > 300) s.prec = 30;
          boolean two = r.chance(1, 4);
          boolean width = r.bool();
          if (width || two) {
            s.width = Spec.STAR;
            args.add(star(r, (int) (i % KINDS)));
          }
          if (!width || two) {
            s.prec = Spec.STAR;
            args.add(star(r, (int) (i % KINDS)));
          }
          if (r.chance(1, 4)) items.add("ab");
          items.add(s);
          args.add(Arg.of(r.chance(1, 8) ? value(r, r.below(KINDS)) : s.conv == 's' ? "some text" : (Object) 65));
          judge("fields", i, items, args, r.below(12));
        });
    // Texts as numbers.
    cases(
        "texts",
        400_000,
        (r, i) -> {
          String t = numeric(r);
          CharSequence v = Gen.sequence(r, t);
          List<Object> items = new ArrayList<>();
          Spec s = gen.spec(r, r.pick("diuoxXfFeEgGaAc"));
          if (s.width > 300) s.width = 30;
          if (s.prec > 300) s.prec = 30;
          items.add(s);
          List<Arg> args = Lib.list(Arg.of(v));
          judge("texts", i, items, args, r.below(12));
        });
  }

  private Arg star(Rng r, int kind) {
    if (r.chance(1, 3)) {
      int n = r.range(-50, 50);
      Object[] forms = {
        (double) n, (float) n, BigInteger.valueOf(n), BigDecimal.valueOf(n), new AtomicInteger(n), new AtomicLong(n),
        Integer.toString(n), new StringBuilder().append(n), n > 0, (char) Math.abs(n), Instant.ofEpochSecond(n),
        new Date(n * 1000L), new Gen.OddNumber(n), BigDecimal.valueOf(n, 0).setScale(3), (long) n, (short) n, (byte) n,
        "+" + Math.abs(n), "" + n + " ", " " + n, n + ".0", ""
      };
      Object v = r.pick(forms);
      return new Arg(v, Arg.boxable(v) && r.bool());
    }
    Object v = value(r, kind);
    return new Arg(v, Arg.boxable(v) && r.bool());
  }

  private String numeric(Rng r) {
    switch (r.below(12)) {
      case 0:
        return Long.toString(gen.int64(r));
      case 1:
        return Double.toString(gen.float64(r));
      case 2:
        return gen.bigInteger(r).toString();
      case 3:
        {
          String[] odd = {
            "", " ", "+", "-", "+5", "-0", "- 5", "5 ", " 5", "0x10", "010", "1e5", "1E400", "-1e-400", "NaN", "Infinity",
            "-Infinity", "nan", "inf", "1d", "1f", "1L", "0x1p3", "0x1.8p-1", "1_000", "1,000", "1.5.2", ".5", "5.", ".",
            "٣٤", "５", "null", "true", "9223372036854775807", "9223372036854775808",
            "-9223372036854775808", "-9223372036854775809", "2147483648", "−" + "5", "5\u0000", "1e", "e5", "--5"
          };
          return r.pick(odd);
        }
      case 4:
        return gen.string(r, 12);
      case 5:
        return gen.bigDecimal(r, 40).toString();
      case 6:
        return (r.bool() ? "+" : "-") + Gen.digits(r, r.range(1, 25));
      case 7:
        return Gen.digits(r, r.range(1, 20)) + "." + Gen.digits(r, r.range(1, 20));
      case 8:
        return "000" + Gen.digits(r, r.range(1, 18));
      case 9:
        return r.pick(new String[] {" ", "\t", "\n", ""}) + r.range(-99, 99) + r.pick(new String[] {" ", " ", "", "x"});
      case 10:
        return Double.toHexString(gen.float64(r));
      default:
        return Integer.toString((int) gen.int64(r));
    }
  }

  private enum Colour {
    RED,
    green
  }

  /** A value of the given kind. */
  Object value(Rng r, int kind) {
    switch (kind) {
      case 0:
        return null;
      case 1:
        return r.bool();
      case 2:
        return Gen.ch(r, r.below(7));
      case 3:
        return (byte) gen.int64(r);
      case 4:
        return (short) gen.int64(r);
      case 5:
        return (int) gen.int64(r);
      case 6:
        return gen.int64(r);
      case 7:
        return gen.float32(r);
      case 8:
        return gen.float64(r);
      case 9:
        return gen.bigInteger(r);
      case 10:
        return gen.bigDecimal(r, 60);
      case 11:
        return gen.string(r, 20);
      case 12:
        return numeric(r);
      case 13:
        return gen.sequence(r, 20);
      case 14:
        return Gen.sequence(r, numeric(r));
      case 15:
        return "";
      case 16:
        return new StringBuilder();
      case 17:
        return new AtomicLong(gen.int64(r));
      case 18:
        return new AtomicInteger((int) gen.int64(r));
      case 19:
        return new Gen.OddNumber(gen.int64(r));
      case 20:
        return new Date(gen.epochMillis(r));
      case 21:
        {
          Calendar c = new GregorianCalendar(TimeZone.getTimeZone(Gen.zone(r)));
          c.setTimeInMillis(gen.epochMillis(r));
          return c;
        }
      case 22:
        return r.chance(1, 10)
            ? (r.bool() ? Instant.MAX : Instant.MIN)
            : Instant.ofEpochMilli(gen.epochMillis(r)).plusNanos(r.below(1_000_000));
      case 23:
        return ZonedDateTime.of(gen.localDateTime(r), Gen.zone(r));
      case 24:
        return OffsetDateTime.of(gen.localDateTime(r), ZoneOffset.ofTotalSeconds(r.range(-64800, 64800)));
      case 25:
        return gen.localDateTime(r);
      case 26:
        return gen.localDateTime(r).toLocalDate();
      case 27:
        {
          Object[] a = {
            LocalTime.of(r.below(24), r.below(60)), Year.of(r.range(1, 3000)), YearMonth.of(2020, 2), DayOfWeek.MONDAY,
            java.time.chrono.JapaneseDate.of(2000, 1, 1), Instant.EPOCH.atOffset(ZoneOffset.UTC).toOffsetTime()
          };
          return r.pick(a);
        }
      case 28:
        return gen.array(r);
      case 29:
        return new Gen.Named(gen.string(r, 10));
      case 30:
        return r.bool() ? Colour.RED : Colour.green;
      case 31:
        {
          Object[] a = {
            Collections.emptyList(), Arrays.asList(1, 2, null), Collections.singletonMap("k", 1), Optional.of(5), Optional.empty(),
            Locale.US, Duration.ofMillis(1500), Object.class, new java.util.BitSet(), Thread.State.NEW, new ArrayList<>(Arrays.asList("5"))
          };
          return r.pick(a);
        }
      case 32:
        return new java.sql.Timestamp(gen.epochMillis(r));
      case 33:
        {
          // numbers with their own idea of conversion
          return new Number() {
            @Override
            public int intValue() {
              return 7;
            }

            @Override
            public long longValue() {
              return 7;
            }

            @Override
            public float floatValue() {
              return 2.5f;
            }

            @Override
            public double doubleValue() {
              return 2.5;
            }

            @Override
            public String toString() {
              return "seven";
            }
          };
        }
      default:
        throw new AssertionError(kind);
    }
  }

  /** 0 = left open, 1 = text, 2 = refused. */
  private int judge(String phase, long i, List<Object> items, List<Arg> args, int via) {
    String fmt = Program.format(items);
    Program.Expect e;
    try {
      e = Program.eval(items, args);
    } catch (Ref.Unspecified x) {
      rep.count("left open");
      return 0;
    }
    if (via == 3) for (Arg a : args) if (a.prim) via = 9;
    Lib.Out o = Lib.formatVia(via, fmt, args);
    rep.judged();
    rep.count(e.refused ? "refusals expected in " + phase : "texts expected in " + phase);
    long h = Rng.hash(fmt);
    for (Arg a : args) h = Rng.mix(h, hash(a));
    rep.distinct(h);
    if (rep.wantsSamples()) rep.sample(Lib.show(fmt, args).replace("\n", " ") + (e.refused ? " refused" : " -> " + Report.quote(e.text)));
    if (e.refused ? !o.refused() : o.error != null || !o.text.equals(e.text)) {
      fail(
          phase,
          i,
          e.refused ? "expected the formatting exception" : "wrong outcome",
          Lib.show(fmt, args)
              + "\nexpected: "
              + (e.refused ? "formatting exception" : Report.quote(e.text))
              + "\nactual:   "
              + o
              + (o.error == null ? "" : CheckC11.trace(o.error)));
    }
    return e.refused ? 2 : 1;
  }

  private static long hash(Arg a) {
    Object v = a.v;
    if (v == null) return 1;
    // values without a content hash count once per kind
    if (v instanceof Number || v instanceof CharSequence || v instanceof Character || v instanceof Boolean) return a.hash();
    if (v instanceof Enum || v instanceof Class) return Rng.hash(v.toString());
    if (v instanceof java.time.temporal.TemporalAccessor || v instanceof Date) return Rng.hash(v.toString());
    if (v instanceof Calendar) return ((Calendar) v).getTimeInMillis();
    if (v instanceof Gen.Named || v.getClass().isArray()) return a.hash();
    return Rng.hash(v.getClass().getName());
  }
}
