package fpv;

import java.io.BufferedWriter;
import java.io.ByteArrayOutputStream;
import java.io.CharArrayWriter;
import java.io.IOException;
import java.io.OutputStreamWriter;
import java.io.PrintStream;
import java.io.PrintWriter;
import java.io.StringWriter;
import java.io.UncheckedIOException;
import java.nio.CharBuffer;
import java.nio.charset.StandardCharsets;
import java.util.concurrent.Callable;

/** A destination of one of the usual kinds, with the text it holds. Text beyond ASCII survives in all but the byte streams. */
final class Dest {
  static final int KINDS = 10;

  final String name;
  final Appendable to;
  private final Callable<String> content;

  Dest(int kind, String before) {
    this(kind, before, 1 << 12);
  }

  Dest(int kind, String before, int room) {
    switch (kind) {
      case 0:
        name = "string builder";
        to = new StringBuilder();
        content = to::toString;
        break;
      case 1:
        name = "string buffer";
        to = new StringBuffer();
        content = to::toString;
        break;
      case 2:
        name = "string writer";
        to = new StringWriter();
        content = to::toString;
        break;
      case 3:
        {
          name = "character buffer";
          CharBuffer b = CharBuffer.allocate(before.length() + room);
          to = b;
          content = () -> new String(b.array(), 0, b.position());
          break;
        }
      case 4:
        name = "character array writer";
        to = new CharArrayWriter();
        content = to::toString;
        break;
      case 5:
        {
          name = "print writer";
          StringWriter w = new StringWriter();
          PrintWriter p = new PrintWriter(w);
          to = p;
          content =
              () -> {
                p.flush();
                return w.toString();
              };
          break;
        }
      case 6:
        {
          name = "buffered writer";
          StringWriter w = new StringWriter();
          BufferedWriter p = new BufferedWriter(w, 7);
          to = p;
          content =
              () -> {
                p.flush();
                return w.toString();
              };
          break;
        }
      case 7:
        {
          name = "custom appendable";
          Sinks.Log l = new Sinks.Log(0);
          to = l;
          content = l.got::toString;
          break;
        }
      case 8:
        {
          name = "print stream";
          ByteArrayOutputStream b = new ByteArrayOutputStream();
          PrintStream p = new PrintStream(b);
          to = p;
          content =
              () -> {
                p.flush();
                return new String(b.toByteArray(), StandardCharsets.UTF_8);
              };
          break;
        }
      default:
        {
          name = "encoding writer";
          ByteArrayOutputStream b = new ByteArrayOutputStream();
          OutputStreamWriter p = new OutputStreamWriter(b, StandardCharsets.UTF_8);
          to = p;
          content =
              () -> {
                p.flush();
                return new String(b.toByteArray(), StandardCharsets.UTF_8);
              };
          break;
        }
    }
    try {
      to.append(before);
    } catch (IOException e) {
      throw new UncheckedIOException(e);
    }
  }

  String content() {
    try {
      return content.call();
    } catch (Exception e) {
      throw new IllegalStateException(e);
    }
  }
}
