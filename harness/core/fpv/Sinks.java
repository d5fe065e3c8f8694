package fpv;

import java.io.IOException;
import java.io.Writer;

/** Destinations that look at what they are given in different ways. */
final class Sinks {
  private Sinks() {}

  /** Ways of reading a character sequence; all must agree for a well-behaved one. */
  static final int READERS = 7;

  static String read(int how, CharSequence s, int from, int to) {
    StringBuilder sb = new StringBuilder();
    switch (how) {
      case 0:
        return s.toString().substring(from, to);
      case 1:
        for (int i = from; i < to; i++) sb.append(s.charAt(i));
        return sb.toString();
      case 2:
        for (int i = to - 1; i >= from; i--) sb.append(s.charAt(i));
        return reverse(sb);
      case 3:
        return halves(s.subSequence(from, to));
      case 4:
        if (from == 0 && to == s.length()) {
          s.chars().forEach(c -> sb.append((char) c));
          return sb.toString();
        }
        return s.subSequence(from, to).toString();
      case 5:
        return sb.append(s, from, to).toString();
      default:
        {
          StringBuffer b = new StringBuffer();
          if (from == 0 && to == s.length()) b.append(s);
          else b.append(s, from, to);
          return b.toString();
        }
    }
  }

  private static String reverse(StringBuilder sb) {
    char[] a = new char[sb.length()];
    for (int i = 0; i < a.length; i++) a[i] = sb.charAt(a.length - 1 - i);
    return new String(a);
  }

  private static String halves(CharSequence s) {
    int n = s.length();
    if (n <= 4) return s.toString();
    int m = n / 3 + 1;
    return halves(s.subSequence(0, m)) + halves(s.subSequence(m, n));
  }

  /** Appendable that logs its calls. */
  static class Log implements Appendable {
    final StringBuilder got = new StringBuilder();
    final int how;
    int seqs, ranges, chars;
    boolean sawNull;

    Log(int how) {
      this.how = how;
    }

    int calls() {
      return seqs + ranges + chars;
    }

    void before() throws IOException {}

    @Override
    public Appendable append(CharSequence s) throws IOException {
      before();
      seqs++;
      if (s == null) {
        sawNull = true;
        got.append("null");
      } else {
        got.append(read(how, s, 0, s.length()));
      }
      return this;
    }

    @Override
    public Appendable append(CharSequence s, int from, int to) throws IOException {
      before();
      ranges++;
      if (s == null) {
        sawNull = true;
        s = "null";
      }
      got.append(read(how, s, from, to));
      return this;
    }

    @Override
    public Appendable append(char c) throws IOException {
      before();
      chars++;
      got.append(c);
      return this;
    }
  }

  /** Writer that only sees character arrays. */
  static class Raw extends Writer {
    final StringBuilder got = new StringBuilder();
    int calls;

    @Override
    public void write(char[] a, int off, int len) throws IOException {
      calls++;
      got.append(a, off, len);
      // what is handed over may be reused by the writer's caller, not by us
    }

    @Override
    public void flush() {}

    @Override
    public void close() {}
  }

  /** A writer of the platform whose writing methods were overridden. */
  static final class Watched extends java.io.StringWriter {
    final StringBuilder got = new StringBuilder();

    @Override
    public void write(int c) {
      got.append((char) c);
    }

    @Override
    public void write(char[] c, int x, int n) {
      got.append(c, x, n);
    }

    @Override
    public void write(String s) {
      got.append(s);
    }

    @Override
    public void write(String s, int x, int n) {
      got.append(s, x, x + n);
    }
  }

  /** A writer of the platform whose writing methods were overridden. */
  static final class WatchedArray extends java.io.CharArrayWriter {
    final StringBuilder got = new StringBuilder();

    @Override
    public void write(int c) {
      got.append((char) c);
    }

    @Override
    public void write(char[] c, int x, int n) {
      got.append(c, x, n);
    }

    @Override
    public void write(String s) {
      got.append(s);
    }

    @Override
    public void write(String s, int x, int n) {
      got.append(s, x, x + n);
    }
  }

  /** A writer of the platform whose writing methods were overridden. */
  static final class WatchedPrint extends java.io.PrintWriter {
    final StringBuilder got = new StringBuilder();

    WatchedPrint() {
      super(new Raw());
    }

    @Override
    public void write(int c) {
      got.append((char) c);
    }

    @Override
    public void write(char[] c, int x, int n) {
      got.append(c, x, n);
    }

    @Override
    public void write(String s) {
      got.append(s);
    }

    @Override
    public void write(String s, int x, int n) {
      got.append(s, x, x + n);
    }
  }
}
