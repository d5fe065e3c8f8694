package fpv;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.Arrays;

/** An argument value and the way it is handed over. */
public final class Arg {
  public final Object v;
  /** Added through the primitive-typed method (v is then a boxed primitive). */
  public final boolean prim;

  public Arg(Object v, boolean prim) {
    this.v = v;
    this.prim = prim;
  }

  public static Arg of(Object v) {
    return new Arg(v, false);
  }

  public static boolean boxable(Object v) {
    return v instanceof Integer
        || v instanceof Long
        || v instanceof Double
        || v instanceof Float
        || v instanceof Short
        || v instanceof Byte
        || v instanceof Character
        || v instanceof Boolean;
  }

  public long hash() {
    if (v == null) return 11;
    return Rng.mix(Rng.hash(v.getClass().getName()), valueHash());
  }

  private long valueHash() {
    if (v instanceof CharSequence) return Rng.hash((CharSequence) v);
    if (v instanceof Double) return Double.doubleToRawLongBits((Double) v);
    if (v instanceof Long) return (Long) v;
    if (v instanceof BigDecimal || v instanceof BigInteger) return Rng.hash(v.toString());
    if (v instanceof Object[]) return Arrays.hashCode((Object[]) v);
    if (v instanceof byte[]) return Arrays.hashCode((byte[]) v);
    if (v instanceof char[]) return Arrays.hashCode((char[]) v);
    if (v instanceof Number && !(v instanceof Float)) return ((Number) v).longValue();
    if (v.getClass().isArray() || v instanceof Gen.Named) return Rng.hash(describe(v));
    return v.hashCode();
  }

  public String describe() {
    return describe(v) + (prim ? " (primitive)" : "");
  }

  public static String describe(Object v) {
    if (v == null) return "null";
    if (v instanceof CheckC10.Bomb) return "<text that fails when touched>";
    if (v instanceof CharSequence) {
      return v.getClass().getSimpleName() + " " + Report.quote((CharSequence) v);
    }
    if (v instanceof Double) {
      return "double " + v + " bits 0x" + Long.toHexString(Double.doubleToRawLongBits((Double) v));
    }
    if (v instanceof Float) {
      return "float " + v + " bits 0x" + Integer.toHexString(Float.floatToRawIntBits((Float) v));
    }
    if (v instanceof Character) return "char U+" + Integer.toHexString((Character) v);
    if (v instanceof BigDecimal) {
      return "BigDecimal unscaled="
          + ((BigDecimal) v).unscaledValue()
          + " scale="
          + ((BigDecimal) v).scale();
    }
    String s;
    if (v instanceof Object[]) {
      StringBuilder sb = new StringBuilder("[");
      for (Object o : (Object[]) v) sb.append(describe(o)).append("; ");
      s = sb.append(']').toString();
    } else if (v instanceof byte[]) s = Arrays.toString((byte[]) v);
    else if (v instanceof char[]) s = Report.quote(new String((char[]) v));
    else if (v instanceof int[]) s = Arrays.toString((int[]) v);
    else if (v instanceof long[]) s = Arrays.toString((long[]) v);
    else if (v instanceof short[]) s = Arrays.toString((short[]) v);
    else if (v instanceof double[]) s = Arrays.toString((double[]) v);
    else if (v instanceof float[]) s = Arrays.toString((float[]) v);
    else if (v instanceof boolean[]) s = Arrays.toString((boolean[]) v);
    else {
      try {
        s = String.valueOf(v);
      } catch (RuntimeException e) {
        s = "<toString throws " + e + ">";
      }
    }
    return v.getClass().getSimpleName() + " " + s;
  }
}
