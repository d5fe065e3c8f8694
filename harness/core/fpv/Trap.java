package fpv;

import java.time.ZonedDateTime;
import java.time.temporal.TemporalAccessor;
import java.time.temporal.TemporalField;
import java.time.temporal.TemporalQuery;
import java.time.temporal.ValueRange;

/** Arguments whose callbacks are counted and can be made to fail. */
final class Trap {
  /** Callbacks since the last reset; fails at the given one. */
  int calls;

  int failAt = -1;
  Throwable fault;
  boolean fired;
  Runnable onCall;

  void reset(int failAt, Throwable fault) {
    this.calls = 0;
    this.failAt = failAt;
    this.fault = fault;
    this.fired = false;
  }

  void hit() {
    int n = calls++;
    if (onCall != null) onCall.run();
    if (n == failAt) {
      fired = true;
      Trap.<RuntimeException>sneaky(fault);
    }
  }

  @SuppressWarnings("unchecked")
  static <T extends Throwable> void sneaky(Throwable t) throws T {
    throw (T) t;
  }

  static final class Seq implements CharSequence {
    final Trap t;
    final String s;

    Seq(Trap t, String s) {
      this.t = t;
      this.s = s;
    }

    @Override
    public int length() {
      t.hit();
      return s.length();
    }

    @Override
    public char charAt(int i) {
      t.hit();
      return s.charAt(i);
    }

    @Override
    public CharSequence subSequence(int a, int b) {
      t.hit();
      return new Seq(t, s.substring(a, b));
    }

    @Override
    public String toString() {
      t.hit();
      return s;
    }
  }

  static final class Obj {
    final Trap t;
    final String s;

    Obj(Trap t, String s) {
      this.t = t;
      this.s = s;
    }

    @Override
    public String toString() {
      t.hit();
      return s;
    }
  }

  static final class Num extends Number {
    final Trap t;
    final long n;

    Num(Trap t, long n) {
      this.t = t;
      this.n = n;
    }

    @Override
    public int intValue() {
      t.hit();
      return (int) n;
    }

    @Override
    public long longValue() {
      t.hit();
      return n;
    }

    @Override
    public float floatValue() {
      t.hit();
      return n;
    }

    @Override
    public double doubleValue() {
      t.hit();
      return n;
    }

    @Override
    public String toString() {
      t.hit();
      return Long.toString(n);
    }
  }

  static final class Time implements TemporalAccessor {
    final Trap t;
    final ZonedDateTime z;

    Time(Trap t, ZonedDateTime z) {
      this.t = t;
      this.z = z;
    }

    @Override
    public boolean isSupported(TemporalField f) {
      t.hit();
      return z.isSupported(f);
    }

    @Override
    public long getLong(TemporalField f) {
      t.hit();
      return z.getLong(f);
    }

    @Override
    public int get(TemporalField f) {
      t.hit();
      return z.get(f);
    }

    @Override
    public ValueRange range(TemporalField f) {
      t.hit();
      return z.range(f);
    }

    @Override
    public <R> R query(TemporalQuery<R> q) {
      t.hit();
      return z.query(q);
    }

    @Override
    public String toString() {
      t.hit();
      return z.toString();
    }
  }
}
