package fpv;

import io.fastprintf.seq.AtomicSeq;
import java.util.function.Function;

/** A text of the caller's own making that implements only what it must. */
public final class Foreign implements AtomicSeq {
  private final String s;

  Foreign(String s) {
    this.s = s;
  }

  /** Makes them. */
  public static final class Maker implements Function<String, CharSequence> {
    @Override
    public CharSequence apply(String s) {
      return new Foreign(s);
    }
  }

  @Override
  public int length() {
    return s.length();
  }

  @Override
  public char charAt(int i) {
    return s.charAt(i);
  }

  @Override
  public AtomicSeq subSequence(int a, int b) {
    return new Foreign(s.substring(a, b));
  }

  @Override
  public AtomicSeq upperCase() {
    return new Foreign(Ref.upper(s));
  }

  @Override
  public String toString() {
    return s;
  }
}
