package fpv;

import java.math.BigInteger;
import java.time.Instant;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.time.OffsetDateTime;
import java.time.ZoneId;
import java.time.ZonedDateTime;
import java.time.format.DateTimeFormatter;
import java.time.temporal.TemporalAccessor;
import java.util.Calendar;
import java.util.Date;

/** Reference for the date-time conversion. */
final class RefTime {
  private RefTime() {}

  static final long LAST_SECOND = 4294967295L;

  static Instant epoch(long n) {
    if (n < 0) throw new Ref.Unspecified("negative epoch");
    return n <= LAST_SECOND ? Instant.ofEpochSecond(n) : Instant.ofEpochMilli(n);
  }

  static TemporalAccessor temporal(Object v) {
    if (v == null) throw new Ref.Refused("null");
    if (v instanceof TemporalAccessor) return (TemporalAccessor) v;
    if (v instanceof Date) {
      if (v instanceof java.sql.Date || v instanceof java.sql.Time) {
        return Instant.ofEpochMilli(((Date) v).getTime());
      }
      return ((Date) v).toInstant();
    }
    if (v instanceof Calendar) return ((Calendar) v).toInstant();
    if (v instanceof Integer) return epoch(((Integer) v) & 0xFFFFFFFFL);
    if (v instanceof Long) return epoch((Long) v);
    if (v instanceof BigInteger) {
      if (((BigInteger) v).bitLength() > 63) {
        if (((BigInteger) v).signum() < 0) throw new Ref.Unspecified("negative epoch");
        throw new Ref.Refused("epoch too large");
      }
      return epoch(((BigInteger) v).longValue());
    }
    if (v instanceof Double
        || v instanceof Float
        || v instanceof Short
        || v instanceof Byte
        || v instanceof java.math.BigDecimal) {
      throw new Ref.Refused("not an integer instant");
    }
    if (v instanceof Number) return epoch(((Number) v).longValue());
    throw new Ref.Refused("not a date-time");
  }

  static String format(Spec s, Object v) {
    TemporalAccessor t = temporal(v);
    if (t instanceof Instant) {
      try {
        t = ZonedDateTime.ofInstant((Instant) t, ZoneId.systemDefault());
      } catch (java.time.DateTimeException e) {
        throw new Ref.Refused("instant out of range");
      }
    }
    if (s.pattern != null) {
      try {
        return DateTimeFormatter.ofPattern(s.pattern).format(t);
      } catch (java.time.DateTimeException e) {
        throw new Ref.Refused("pattern needs a field the value lacks");
      }
    }
    if (t instanceof OffsetDateTime) {
      return ((OffsetDateTime) t).format(DateTimeFormatter.ISO_OFFSET_DATE_TIME);
    }
    if (t instanceof ZonedDateTime) {
      return ((ZonedDateTime) t)
          .toOffsetDateTime()
          .format(DateTimeFormatter.ISO_OFFSET_DATE_TIME);
    }
    if (t instanceof LocalDateTime) {
      return ((LocalDateTime) t).format(DateTimeFormatter.ISO_LOCAL_DATE_TIME);
    }
    if (t instanceof LocalDate) return ((LocalDate) t).format(DateTimeFormatter.ISO_LOCAL_DATE);
    throw new Ref.Refused("no default form");
  }
}
