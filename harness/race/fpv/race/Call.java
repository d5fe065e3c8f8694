package fpv.race;

/** One call with the outcome it has when it runs alone. */
public final class Call {
  public String fmt;
  public Object[] vals;
  public boolean[] prim;
  public String want;
  public boolean refused;

  public String judge(String text, Throwable error, Class<?> refusal) {
    if (refused) return refusal.isInstance(error) ? null : "expected the formatting exception, got " + show(text, error);
    return error == null && want.equals(text) ? null : "expected \"" + want + "\", got " + show(text, error);
  }

  static String show(String text, Throwable error) {
    if (error == null) return "\"" + text + "\"";
    StringBuilder sb = new StringBuilder(error.toString());
    for (int k = 0; k < Math.min(8, error.getStackTrace().length); k++) sb.append("\n    at ").append(error.getStackTrace()[k]);
    return sb.toString();
  }
}
