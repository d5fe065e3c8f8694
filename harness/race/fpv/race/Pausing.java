package fpv.race;

/** A text argument whose methods are scheduling points. */
public final class Pausing implements CharSequence {
  private static final int LENGTH = Sched.site("argument length", true);
  private static final int CHAR = Sched.site("argument character", false);
  private static final int TEXT = Sched.site("argument text", true);

  private final String s;

  public Pausing(String s) {
    this.s = s;
  }

  @Override
  public int length() {
    Sched.point(LENGTH);
    return s.length();
  }

  @Override
  public char charAt(int i) {
    Sched.point(CHAR);
    return s.charAt(i);
  }

  @Override
  public CharSequence subSequence(int a, int b) {
    Sched.point(TEXT);
    return s.substring(a, b);
  }

  @Override
  public String toString() {
    Sched.point(TEXT);
    return s;
  }
}
