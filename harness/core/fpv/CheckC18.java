package fpv;

import io.fastprintf.FastPrintf;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.DayOfWeek;
import java.time.Instant;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.time.LocalTime;
import java.time.MonthDay;
import java.time.OffsetDateTime;
import java.time.OffsetTime;
import java.time.Year;
import java.time.YearMonth;
import java.time.ZoneId;
import java.time.ZonedDateTime;
import java.time.chrono.HijrahDate;
import java.time.chrono.JapaneseDate;
import java.time.chrono.ThaiBuddhistDate;
import java.time.format.DateTimeFormatter;
import java.time.temporal.TemporalAccessor;
import java.time.temporal.TemporalField;
import java.time.zone.ZoneOffsetTransition;
import java.util.Calendar;
import java.util.Date;
import java.util.GregorianCalendar;
import java.util.List;
import java.util.Locale;
import java.util.TimeZone;
import java.util.concurrent.ConcurrentHashMap;

/** Date-time conversion under changing system zones. */
public final class CheckC18 extends Check {
  private static final String[] ZONES = {
    "UTC", "America/New_York", "Asia/Kathmandu", "Pacific/Apia", "Australia/Lord_Howe", "Africa/Monrovia",
    "Europe/London", "Pacific/Kiritimati", "Etc/GMT+12", "America/St_Johns", "Asia/Tehran", "Europe/Amsterdam"
  };
  private static final String[] PATTERNS = {
    "yyyy-MM-dd", "yyyy-MM-dd HH:mm:ss", "uuuu-MM-dd'T'HH:mm:ss.SSSSSSSSSXXX", "HH:mm", "HH", "hh 'o''clock' a",
    "EEEE, d MMMM uuuu", "EEE d MMM yy", "DDD", "A", "n", "N", "VV", "z", "zzzz", "O", "OOOO", "X", "XXX", "XXXXX",
    "x", "xxxx", "Z", "ZZZZ", "G uuuu", "Q", "QQQ", "w", "W", "e", "k", "K", "yyyy[-MM[-dd]]", "[HH:mm]", "'%d'",
    "'%'", "'literal'", "ppppH", "SSS", "dd.MM.uuuu", "''", "mm 'min' ss 'sec'", "YYYY-'W'ww-e", "GGGG", "MMMMM", "B"
  };
  private static final String LETTERS = "GuyDMLdQqYwWEecFahKkHmsSAnNVzOXxZ";

  /** Formatters stay in use while the system zone changes around them. */
  private final ConcurrentHashMap<String, FastPrintf> kept = new ConcurrentHashMap<>();

  @Override
  public String level() {
    return "exploration";
  }

  @Override
  public String rule() {
    return "random (t/T, pattern, flags, width, value) cases under each of "
        + ZONES.length
        + " system zones, values concentrated on offset transitions, range ends and epoch boundaries;"
        + " formatters are kept across zone changes; distinct by zone, directive and value";
  }

  @Override
  public void run() throws Throwable {
    TimeZone before = TimeZone.getDefault();
    try {
      for (String z : ZONES) {
        TimeZone.setDefault(TimeZone.getTimeZone(z));
        String phase = "zone " + z.replace('/', '_');
        cases(phase, 60_000, (r, i) -> one(phase, z, r, i));
        rep.count("system zones");
      }
      // back again: what was learnt under one zone must not leak into another
      for (String z : new String[] {"UTC", "Asia/Kathmandu", "America/New_York", "UTC"}) {
        TimeZone.setDefault(TimeZone.getTimeZone(z));
        String phase = "again " + z.replace('/', '_');
        cases(phase, 8_000, (r, i) -> one(phase, z, r, i));
        rep.count("system zone changes");
      }
      TimeZone.setDefault(TimeZone.getTimeZone("Asia/Tokyo"));
      cases("integers", 200_000, (r, i) -> integers(r, i));
      cases("refused", 40_000, (r, i) -> refused(r, i));
    } finally {
      TimeZone.setDefault(before);
    }
  }

  private Spec spec(Rng r) {
    Spec s = gen.spec(r, r.bool() ? 't' : 'T');
    if (r.bool()) s.pattern = r.chance(3, 4) ? r.pick(PATTERNS) : random(r);
    if (s.pattern != null && !usable(s.pattern)) s.pattern = null;
    return s;
  }

  static boolean usable(String p) {
    if (p.isEmpty() || p.indexOf('{') >= 0 || p.indexOf('}') >= 0) return false;
    try {
      DateTimeFormatter.ofPattern(p);
      return true;
    } catch (RuntimeException e) {
      return false;
    }
  }

  static String random(Rng r) {
    for (int tries = 0; ; tries++) {
      StringBuilder sb = new StringBuilder();
      int n = r.range(1, 5);
      for (int k = 0; k < n; k++) {
        boolean optional = r.chance(1, 8);
        if (optional) sb.append('[');
        if (r.chance(1, 8)) sb.append(Ref.rep('p', r.range(1, 24)));
        char c = r.pick(LETTERS);
        int m = r.chance(1, 20) ? r.range(5, 20) : r.range(1, 4);
        for (int j = 0; j < m; j++) sb.append(c);
        if (optional) sb.append(']');
        if (r.bool()) sb.append(r.pick("-/:. ,"));
        if (r.chance(1, 6)) sb.append('\'').append(Gen.string(r, r.range(1, 5), 1).replace("'", "")).append("x'");
      }
      if (usable(sb.toString()) || tries > 20) return sb.toString();
    }
  }

  private Object value(Rng r) {
    switch (r.below(14)) {
      case 0:
        {
          // around an offset transition of the system zone
          ZoneId z = ZoneId.systemDefault();
          Instant from = Instant.ofEpochSecond(r.bits(31) - (r.bool() ? r.bits(31) : 0));
          ZoneOffsetTransition t = r.bool() ? z.getRules().nextTransition(from) : z.getRules().previousTransition(from);
          Instant i = t == null ? from : t.getInstant();
          i = i.plusMillis(r.chance(1, 3) ? 0 : r.range(-3_700_000, 3_700_000));
          return r.bool() ? i : r.bool() ? (Object) Date.from(i) : ZonedDateTime.ofInstant(i, z);
        }
      case 1:
        {
          LocalDateTime l = r.bool() ? LocalDateTime.MIN : LocalDateTime.MAX;
          Object[] ends = {
            l, l.toLocalDate(), OffsetDateTime.MIN, OffsetDateTime.MAX, Instant.MIN, Instant.MAX, Instant.EPOCH,
            new Date(Long.MAX_VALUE), new Date(Long.MIN_VALUE), Long.MAX_VALUE, Instant.MAX.minusSeconds(r.below(100_000)),
            Instant.MIN.plusSeconds(r.below(100_000))
          };
          return r.pick(ends);
        }
      case 2:
        {
          long m = gen.epochMillis(r);
          switch (r.below(5)) {
            case 0:
              return new java.sql.Date(m);
            case 1:
              return new java.sql.Time(m);
            case 2:
              {
                java.sql.Timestamp t = new java.sql.Timestamp(m);
                t.setNanos(r.below(1_000_000_000));
                return t;
              }
            case 3:
              {
                Calendar c = Calendar.getInstance(TimeZone.getTimeZone(Gen.zone(r)), Locale.forLanguageTag("th-TH-u-ca-buddhist"));
                c.setTimeInMillis(m);
                return c;
              }
            default:
              {
                GregorianCalendar c = new GregorianCalendar(r.range(1500, 2200), r.below(12), r.range(1, 28), r.below(24), r.below(60));
                return c;
              }
          }
        }
      case 3:
        {
          LocalDateTime l = gen.localDateTime(r);
          LocalDate d = LocalDate.of(r.range(1900, 2070), r.range(1, 12), r.range(1, 28));
          Object[] odd = {
            l.toLocalTime(), LocalTime.NOON, OffsetTime.of(l.toLocalTime(), java.time.ZoneOffset.ofHours(r.range(-12, 12))),
            YearMonth.from(l), Year.from(l), MonthDay.of(2, 28), DayOfWeek.FRIDAY, HijrahDate.from(d), JapaneseDate.from(d),
            ThaiBuddhistDate.from(d), ThaiBuddhistDate.from(d).atTime(l.toLocalTime()), new Fixed(l)
          };
          return r.pick(odd);
        }
      case 4:
        return (long) Math.abs(gen.epochMillis(r));
      case 5:
        return (int) r.next();
      default:
        return gen.temporal(r);
    }
  }

  /** A date-time of no known class. */
  static final class Fixed implements TemporalAccessor {
    final LocalDateTime l;

    Fixed(LocalDateTime l) {
      this.l = l;
    }

    @Override
    public boolean isSupported(TemporalField f) {
      return l.isSupported(f);
    }

    @Override
    public long getLong(TemporalField f) {
      return l.getLong(f);
    }

    @Override
    public String toString() {
      return "fixed " + l;
    }

    @Override
    public int hashCode() {
      return l.hashCode();
    }
  }

  private void one(String phase, String zone, Rng r, long i) {
    Spec s = spec(r);
    Object v = value(r);
    gen.aimWidth(r, s, v);
    boolean done;
    if (r.chance(1, 3)) {
      // a formatter from earlier, under whatever zone it was compiled
      Spec t = s.clone();
      if (t.pattern == null || r.bool()) t.pattern = r.bool() ? null : PATTERNS[r.below(12)];
      if (t.pattern != null && !usable(t.pattern)) t.pattern = null;
      t.width = t.width > 40 ? 40 : t.width;
      if (t.width == 0) t.width = Spec.NONE;
      t.prec = Spec.NONE;
      t.plus = t.space = t.alt = t.zero = false;
      done = judgeKept(phase, i, t, v, r);
      s = t;
    } else {
      done = Directive.run(this, phase, i, r, s, v);
    }
    if (done) {
      rep.distinct(Rng.mix(Rng.hash(zone), Directive.hash(s, v)));
      if (rep.wantsSamples()) rep.sample("zone " + zone + " " + s.text() + " of " + Arg.describe(v));
    }
  }

  private boolean judgeKept(String phase, long i, Spec s, Object v, Rng r) {
    String want = null;
    try {
      want = Ref.render(s, v);
    } catch (Ref.Refused e) {
      // stays null
    } catch (Ref.Unspecified e) {
      return false;
    }
    FastPrintf f =
        kept.computeIfAbsent(s.text(), k -> r.bool() ? FastPrintf.compile(k) : FastPrintf.compile(k).enableThreadLocalCache());
    List<Arg> a = Lib.list(Arg.of(v));
    Lib.Out out = Lib.call(() -> f.format(Lib.args(a)));
    rep.judged();
    rep.count("results of kept formatters");
    if (want == null ? !out.refused() : out.error != null || !want.equals(out.text)) {
      fail(
          phase,
          i,
          "kept formatter",
          Lib.show(s.text(), a)
              + "\nsystem zone "
              + ZoneId.systemDefault()
              + "\nexpected: "
              + (want == null ? "formatting exception" : Report.quote(want))
              + "\nactual:   "
              + out);
    }
    return true;
  }

  private void integers(Rng r, long i) {
    Spec s = spec(r);
    if (r.bool()) s.pattern = null;
    long n;
    switch (r.below(6)) {
      case 0:
        n = RefTime.LAST_SECOND + r.range(-2, 2);
        break;
      case 1:
        n = r.range(0, 3);
        break;
      case 2:
        n = r.bits(r.range(1, 63));
        break;
      case 3:
        n = (1L << r.below(63)) + r.range(-1, 1);
        break;
      default:
        n = r.bits(33);
    }
    Object v;
    switch (r.below(5)) {
      case 0:
        v = (int) n;
        break;
      case 1:
        v = BigInteger.valueOf(n);
        break;
      case 2:
        v = r.chance(1, 6) ? BigInteger.ONE.shiftLeft(r.range(63, 130)).add(BigInteger.valueOf(n)) : (Object) n;
        break;
      case 3:
        v = r.bool() ? (Number) new java.util.concurrent.atomic.AtomicLong(n) : new Gen.OddNumber(n);
        break;
      default:
        v = n;
    }
    if (!(v instanceof Integer) && v instanceof Number && ((Number) v).longValue() < 0 && !(v instanceof BigInteger)) {
      // refused in some way; which exception is not fixed
      Lib.Out o = Lib.format(s.text(), Arg.of(v));
      rep.judged();
      if (!(o.error instanceof RuntimeException)) fail("integers", i, "negative instant", Lib.show(s.text(), Lib.list(Arg.of(v))) + "\nactual: " + o);
      rep.count("negative instants refused");
      return;
    }
    gen.aimWidth(r, s, v);
    if (Directive.run(this, "integers", i, r, s, v)) rep.distinct(Directive.hash(s, v));
  }

  private void refused(Rng r, long i) {
    Spec s = spec(r);
    Object[] no = {
      null, "2020-01-01", "", 'x', true, (short) 5, (byte) 5, 1.5, 1.5f, new BigDecimal("12"), new Object(), new int[] {1},
      new StringBuilder("1"), Locale.ROOT, TimeZone.getTimeZone("UTC"), ZoneId.of("UTC"), java.time.Duration.ofSeconds(5),
      java.time.Period.ofDays(1), new Object[] {LocalDate.MIN}, gen.string(r, 20)
    };
    Object v = r.pick(no);
    rep.distinct(Rng.mix(Rng.hash(s.text()), v == null ? 0 : Rng.hash(v.getClass().getName())));
    Directive.run(this, "refused", i, r, s, v);
  }
}
