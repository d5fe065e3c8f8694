package fpv;

import java.time.format.DateTimeFormatter;
import java.util.ArrayList;
import java.util.List;

/** Independent recogniser of formats. */
final class Grammar {
  static final String CONV = "diuoxXfFeEgGaAcsStTnp";

  /** String (literal text) and Spec items, up to the first error. */
  final List<Object> items = new ArrayList<>();
  /** Start of the first malformed directive, or -1. */
  int malformed = -1;
  /** Start of the first directive whose literal width or precision is above the limit, or -1. */
  int overLimit = -1;
  /** A directive the properties say nothing about ('%' as conversion with flags or fields). */
  boolean open;

  private final String f;
  private int p;

  private Grammar(String f) {
    this.f = f;
  }

  static Grammar parse(String f) {
    Grammar g = new Grammar(f);
    g.run();
    return g;
  }

  boolean accepted() {
    return malformed < 0 && overLimit < 0;
  }

  private void run() {
    StringBuilder lit = new StringBuilder();
    while (p < f.length()) {
      char c = f.charAt(p);
      if (c != '%') {
        lit.append(c);
        p++;
        continue;
      }
      if (p + 1 < f.length() && f.charAt(p + 1) == '%') {
        lit.append('%');
        p += 2;
        continue;
      }
      int start = p++;
      Spec s = directive();
      if (s == null) {
        malformed = start;
        break;
      }
      if (s.width > Ref.LIMIT || s.prec > Ref.LIMIT) {
        if (overLimit < 0) overLimit = start;
      }
      if (lit.length() > 0) {
        items.add(lit.toString());
        lit.setLength(0);
      }
      items.add(s);
    }
    if (lit.length() > 0) items.add(lit.toString());
  }

  private char peek() {
    return p < f.length() ? f.charAt(p) : 0xFFFF;
  }

  private Spec directive() {
    Spec s = new Spec();
    for (; ; p++) {
      char c = peek();
      if (c == '-' && !s.minus) s.minus = true;
      else if (c == '+' && !s.plus) s.plus = true;
      else if (c == ' ' && !s.space) s.space = true;
      else if (c == '#' && !s.alt) s.alt = true;
      else if (c == '0' && !s.zero) s.zero = true;
      else if (c != 0xFFFF && "-+ #0".indexOf(c) >= 0) return null;
      else break;
    }
    s.width = field(Spec.NONE);
    if (peek() == '.' && p < f.length()) {
      p++;
      s.prec = field(0);
    }
    if (p >= f.length()) return null;
    char c = f.charAt(p++);
    s.conv = c;
    if (c == '%') {
      open = true;
      return s;
    }
    if (CONV.indexOf(c) < 0) return null;
    if ((c == 't' || c == 'T') && peek() == '{' && p < f.length()) {
      int quotes = 0;
      int q = p + 1;
      for (; q < f.length(); q++) {
        char x = f.charAt(q);
        if (x == '\'') quotes++;
        else if (x == '}' && quotes % 2 == 0) break;
      }
      if (q >= f.length()) return null;
      String pat = f.substring(p + 1, q);
      if (pat.isEmpty()) return null;
      try {
        DateTimeFormatter.ofPattern(pat);
      } catch (RuntimeException e) {
        // mostly IllegalArgumentException; "ppMMdd" is a ClassCastException
        return null;
      }
      s.pattern = pat;
      p = q + 1;
    }
    return s;
  }

  private int field(int none) {
    if (p < f.length() && f.charAt(p) == '*') {
      p++;
      return Spec.STAR;
    }
    int from = p;
    long n = 0;
    while (p < f.length() && f.charAt(p) >= '0' && f.charAt(p) <= '9') {
      n = Math.min(10_000_000_000L, n * 10 + (f.charAt(p) - '0'));
      p++;
    }
    return p == from ? none : (int) Math.min(n, Integer.MAX_VALUE);
  }
}
