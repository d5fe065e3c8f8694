package fpv;

/** One directive. width/prec: NONE = absent, STAR = taken from an argument. */
public final class Spec implements Cloneable {
  public static final int NONE = -1;
  public static final int STAR = -2;

  public boolean minus, plus, space, alt, zero;
  public int width = NONE;
  public int prec = NONE;
  public char conv;
  /** ".": a precision of zero may be written without digits. */
  public boolean bareDot;
  /** Date-time pattern without braces, or null. */
  public String pattern;
  /** Permutation seed for the order in which flags are written. */
  public int order;

  public Spec() {}

  public Spec(char conv) {
    this.conv = conv;
  }

  @Override
  public Spec clone() {
    try {
      return (Spec) super.clone();
    } catch (CloneNotSupportedException e) {
      throw new AssertionError(e);
    }
  }

  public boolean upper() {
    return "XFEGAST".indexOf(conv) >= 0;
  }

  public char lower() {
    return conv >= 'A' && conv <= 'Z' ? (char) (conv + 32) : conv;
  }

  public String text() {
    StringBuilder sb = new StringBuilder("%");
    char[] f = new char[5];
    int n = 0;
    if (minus) f[n++] = '-';
    if (alt) f[n++] = '#';
    if (plus) f[n++] = '+';
    if (space) f[n++] = ' ';
    if (zero) f[n++] = '0';
    int o = order;
    for (int i = n - 1; i > 0; i--) {
      int j = (o & 0x7fffffff) % (i + 1);
      o /= (i + 1);
      char t = f[i];
      f[i] = f[j];
      f[j] = t;
    }
    sb.append(f, 0, n);
    if (width == STAR) sb.append('*');
    else if (width != NONE) sb.append(width);
    if (prec == STAR) sb.append(".*");
    else if (prec == 0 && bareDot) sb.append('.');
    else if (prec != NONE) sb.append('.').append(prec);
    sb.append(conv);
    if (pattern != null) sb.append('{').append(pattern).append('}');
    return sb.toString();
  }
}
