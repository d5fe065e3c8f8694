package fpv;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.Collection;

/** Counts the steps of the instrumented library on the calling thread. */
public final class Meter {
  /** A thread whose steps are counted. */
  public static class Metered extends Thread {
    public long steps;
    /** Steps after which the running call is given up. */
    public long limit = Long.MAX_VALUE;

    public Metered(ThreadGroup g, Runnable r, String n, long stack) {
      super(g, r, n, stack);
    }
  }

  /** Ends a call that has run far beyond its bound. */
  public static final class TooMany extends Error {
    TooMany() {
      super("step limit", null, false, false);
    }
  }

  private Meter() {}

  public static void tick() {
    add(1);
  }

  private static void add(long n) {
    Thread t = Thread.currentThread();
    if (t instanceof Metered) {
      Metered m = (Metered) t;
      m.steps += n;
      if (m.steps > m.limit) {
        m.limit = Long.MAX_VALUE;
        throw new TooMany();
      }
    }
  }

  /** Work of the platform that is proportional to the size of what is handed over or returned. */
  public static void size(Object o) {
    if (o == null) return;
    if (o instanceof String) add(((String) o).length() >> 2);
    else if (o instanceof StringBuilder) add(((StringBuilder) o).length() >> 2);
    else if (o instanceof StringBuffer) add(((StringBuffer) o).length() >> 2);
    else if (o instanceof char[]) add(((char[]) o).length >> 2);
    else if (o instanceof Object[]) add(((Object[]) o).length >> 2);
    else if (o instanceof BigInteger) add(((BigInteger) o).bitLength() >> 5);
    else if (o instanceof BigDecimal) add(((BigDecimal) o).unscaledValue().bitLength() >> 5);
    else if (o instanceof Collection) add(((Collection<?>) o).size() >> 2);
  }

  public static void count(int n) {
    if (n > 0) add(n >> 2);
  }

  /** A search backward from some position, or from the end (-1). */
  public static void back(Object o, int from, int result) {
    int n = ((CharSequence) o).length();
    add(((from < 0 || from > n ? n : from) - Math.max(0, result) >> 2) + 1);
  }

  /** A search forward from some position, or to the end. */
  public static void search(Object o, int from, int result) {
    int n = ((CharSequence) o).length();
    add(((result >= 0 ? result : n) - Math.max(0, Math.min(from, n)) >> 2) + 1);
  }
}
