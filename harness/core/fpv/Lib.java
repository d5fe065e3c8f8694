package fpv;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.PrintfException;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.temporal.TemporalAccessor;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;

/** Calls into the library under test (public API only). */
public final class Lib {
  private Lib() {}

  /** Outcome of one observed call. */
  public static final class Out {
    public String text;
    public Throwable error;

    public boolean refused() {
      return error instanceof PrintfException;
    }

    @Override
    public String toString() {
      return error == null ? Report.quote(text) : "threw " + error;
    }
  }

  public static Args add(Args a, Arg g) {
    Object v = g.v;
    if (g.prim) {
      if (v instanceof Integer) return a.putInt((Integer) v);
      if (v instanceof Long) return a.putLong((Long) v);
      if (v instanceof Double) return a.putDouble((Double) v);
      if (v instanceof Float) return a.putFloat((Float) v);
      if (v instanceof Short) return a.putShort((Short) v);
      if (v instanceof Byte) return a.putByte((Byte) v);
      if (v instanceof Character) return a.putChar((Character) v);
      if (v instanceof Boolean) return a.putBoolean((Boolean) v);
      throw new AssertionError("not a primitive: " + v.getClass());
    }
    return a.put(v);
  }

  /** The typed (reference) method for a value. */
  public static Args addTyped(Args a, Object v) {
    if (v == null) return a.putNull();
    if (v instanceof Integer) return a.putIntOrNull((Integer) v);
    if (v instanceof Long) return a.putLongOrNull((Long) v);
    if (v instanceof Double) return a.putDoubleOrNull((Double) v);
    if (v instanceof Float) return a.putFloatOrNull((Float) v);
    if (v instanceof Short) return a.putShortOrNull((Short) v);
    if (v instanceof Byte) return a.putByteOrNull((Byte) v);
    if (v instanceof Character) return a.putCharOrNull((Character) v);
    if (v instanceof Boolean) return a.putBooleanOrNull((Boolean) v);
    if (v instanceof String) return a.putString((String) v);
    if (v instanceof CharSequence) return a.putCharSequence((CharSequence) v);
    if (v instanceof BigInteger) return a.putBigInteger((BigInteger) v);
    if (v instanceof BigDecimal) return a.putBigDecimal((BigDecimal) v);
    if (v instanceof TemporalAccessor) return a.putDateTime((TemporalAccessor) v);
    return a.put(v);
  }

  public static Args args(List<Arg> list) {
    Args a = Args.create();
    for (Arg g : list) a = add(a, g);
    return a;
  }

  public static Args args(Arg... list) {
    return args(Arrays.asList(list));
  }

  public static Object[] values(List<Arg> list) {
    Object[] o = new Object[list.size()];
    for (int i = 0; i < o.length; i++) o[i] = list.get(i).v;
    return o;
  }

  public static Out call(java.util.concurrent.Callable<String> c) {
    Out o = new Out();
    try {
      o.text = c.call();
    } catch (Throwable t) {
      if (t instanceof ThreadDeath) throw (ThreadDeath) t;
      o.error = t;
    }
    return o;
  }

  /**
   * Whether a failure that nobody expected came out of the library: the innermost frame that is not
   * the platform's belongs to it, or it could not be initialized.
   */
  public static boolean fromLibrary(Throwable t) {
    for (int depth = 0; t != null && depth < 20; depth++, t = t.getCause()) {
      if (t instanceof OutOfMemoryError) return false;
      if (t instanceof LinkageError && String.valueOf(t).replace('/', '.').contains("io.fastprintf.")) {
        return true;
      }
      for (StackTraceElement e : t.getStackTrace()) {
        String c = e.getClassName();
        if (c.startsWith("io.fastprintf.")) return true;
        if (c.startsWith("fpv.")) break;
      }
    }
    return false;
  }

  public static Out format(String fmt, List<Arg> list) {
    return call(() -> FastPrintf.compile(fmt).format(args(list)));
  }

  public static Out format(String fmt, Arg... list) {
    return format(fmt, Arrays.asList(list));
  }

  /** Through one of several entry points, chosen by k. */
  public static Out formatVia(int k, String fmt, List<Arg> list) {
    switch (k) {
      case 0:
        return call(() -> FastPrintf.compile(fmt).format(new StringBuilder(), args(list)).toString());
      case 1:
        return call(
            () -> FastPrintf.compile(fmt).format(new java.io.StringWriter(), args(list)).toString());
      case 2:
        return call(() -> FastPrintf.compile(fmt).enableThreadLocalCache().format(args(list)));
      case 3:
        return call(() -> FastPrintf.compile(fmt).format(values(list)));
      default:
        return format(fmt, list);
    }
  }

  public static String show(String fmt, List<Arg> list) {
    StringBuilder sb = new StringBuilder("format ").append(Report.quote(fmt));
    int n = 0;
    for (Arg a : list) {
      sb.append("\n  arg: ").append(a.describe());
      if (++n > 40) {
        sb.append("\n  ... ").append(list.size()).append(" arguments");
        break;
      }
    }
    return sb.toString();
  }

  public static List<Arg> list(Arg... a) {
    return new ArrayList<>(Arrays.asList(a));
  }
}
