package fpv;

import java.io.IOException;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Path;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.TreeSet;
import java.util.regex.Matcher;
import java.util.regex.Pattern;
import java.util.stream.Collectors;
import java.util.stream.Stream;

/**
 * Literals found in the current sources of the library. They only steer generation: a constant the
 * code singles out is also tried as value, width, precision, length or character. Literals that are
 * not in the recorded list get a larger share.
 */
public final class Dict {
  public final long[] longs;
  public final double[] doubles;
  public final String[] strings;
  public final long[] newLongs;
  public final double[] newDoubles;
  public final String[] newStrings;

  private static final Pattern TOKEN =
      Pattern.compile(
          "//[^\\n]*|/\\*.*?\\*/|\"((?:[^\"\\\\\\n]|\\\\.)*)\"|'((?:[^'\\\\\\n]|\\\\.[0-9a-fA-F]*))'"
              + "|(?<![\\w.])(0[xX][0-9a-fA-F_]+|0[bB][01_]+|[0-9][0-9_]*(?:\\.[0-9_]*)?(?:[eE][+-]?[0-9]+)?|\\.[0-9]+(?:[eE][+-]?[0-9]+)?)[lLdDfF]?",
          Pattern.DOTALL);

  private Dict(Set<String> all, Set<String> known) {
    LinkedHashSet<String> fresh = new LinkedHashSet<>(all);
    fresh.removeAll(known);
    fresh = plain(fresh);
    all = plain(all);
    longs = longs(all);
    doubles = doubles(all);
    strings = strings(all);
    newLongs = longs(fresh);
    newDoubles = doubles(fresh);
    newStrings = strings(fresh);
  }

  private static LinkedHashSet<String> plain(Set<String> numbered) {
    LinkedHashSet<String> out = new LinkedHashSet<>();
    for (String t : numbered) out.add(t.substring(t.indexOf(' ') + 1));
    return out;
  }

  /** The literals, each preceded by the number of its occurrence, so a repeated one can be new too. */
  static Set<String> scan(String src) {
    TreeSet<String> out = new TreeSet<>();
    Map<String, Integer> seen = new HashMap<>();
    try (Stream<Path> st = Files.walk(Paths.get(src))) {
      List<Path> files =
          st.filter(p -> p.toString().endsWith(".java")).sorted().collect(Collectors.toList());
      for (Path p : files) {
        // The tables of powers of ten hold over a thousand literals; they would drown the rest.
        String s = new String(Files.readAllBytes(p), StandardCharsets.UTF_8);
        int bulk = 0;
        Matcher m = TOKEN.matcher(s);
        List<String> here = new ArrayList<>();
        while (m.find()) {
          if (m.group(1) != null) here.add("s:" + m.group(1));
          else if (m.group(2) != null) here.add("s:" + m.group(2));
          else if (m.group(3) != null) {
            String n = m.group(3).replace("_", "");
            if (n.startsWith("0x") && n.length() > 12) {
              if (++bulk > 40) continue;
            }
            here.add("n:" + n);
          }
        }
        for (String t : here) out.add(seen.merge(t, 1, Integer::sum) + " " + t);
      }
    } catch (IOException e) {
      System.err.println("dictionary: " + e);
    }
    return out;
  }

  public static Dict load(String src, String knownFile) {
    Set<String> known = new TreeSet<>();
    try {
      for (String l : Files.readAllLines(Paths.get(knownFile), StandardCharsets.UTF_8)) {
        if (!l.isEmpty()) known.add(l);
      }
    } catch (IOException e) {
      known = scan(src);
    }
    return new Dict(scan(src), known);
  }

  private static long[] longs(Set<String> all) {
    TreeSet<Long> out = new TreeSet<>();
    for (String t : all) {
      if (t.startsWith("s:")) {
        String u = unescape(t.substring(2));
        for (int i = 0; i < u.length() && i < 40; i++) out.add((long) u.charAt(i));
        out.add((long) u.length());
        continue;
      }
      String n = t.substring(2).toLowerCase(java.util.Locale.ROOT);
      try {
        if (n.startsWith("0x")) out.add(Long.parseUnsignedLong(n.substring(2), 16));
        else if (n.startsWith("0b")) out.add(Long.parseUnsignedLong(n.substring(2), 2));
        else if (n.indexOf('.') < 0 && n.indexOf('e') < 0) out.add(Long.parseUnsignedLong(n));
        else {
          double d = Double.parseDouble(n);
          if (d == Math.rint(d) && Math.abs(d) < 1e18) out.add((long) d);
        }
      } catch (NumberFormatException e) {
        // not a number after all
      }
    }
    long[] a = new long[out.size()];
    int i = 0;
    for (long l : out) a[i++] = l;
    return a;
  }

  private static double[] doubles(Set<String> all) {
    TreeSet<Double> out = new TreeSet<>();
    for (String t : all) {
      if (t.startsWith("s:")) continue;
      String n = t.substring(2).toLowerCase(java.util.Locale.ROOT);
      try {
        if (n.startsWith("0x")) {
          long b = Long.parseUnsignedLong(n.substring(2), 16);
          out.add(Double.longBitsToDouble(b));
          out.add((double) b);
        } else if (!n.startsWith("0b")) out.add(Double.parseDouble(n));
      } catch (NumberFormatException e) {
        // skip
      }
    }
    double[] a = new double[out.size()];
    int i = 0;
    for (double d : out) a[i++] = d;
    return a;
  }

  private static String[] strings(Set<String> all) {
    List<String> out = new ArrayList<>();
    for (String t : all) {
      if (t.startsWith("s:") && t.length() > 2) out.add(unescape(t.substring(2)));
    }
    return out.toArray(new String[0]);
  }

  static String unescape(String s) {
    StringBuilder sb = new StringBuilder();
    for (int i = 0; i < s.length(); i++) {
      char c = s.charAt(i);
      if (c != '\\' || i + 1 >= s.length()) {
        sb.append(c);
        continue;
      }
      c = s.charAt(++i);
      if (c == 'u') {
        while (i + 1 < s.length() && s.charAt(i + 1) == 'u') i++;
        try {
          sb.append((char) Integer.parseInt(s.substring(i + 1, i + 5), 16));
          i += 4;
        } catch (RuntimeException e) {
          sb.append('u');
        }
      } else if (c == 'n') sb.append('\n');
      else if (c == 't') sb.append('\t');
      else if (c == 'r') sb.append('\r');
      else if (c == 'b') sb.append('\b');
      else if (c == 'f') sb.append('\f');
      else if (c >= '0' && c <= '7') sb.append((char) (c - '0'));
      else sb.append(c);
    }
    return sb.toString();
  }

  /** A dictionary number, possibly off by one, or null when there is nothing to pick. */
  public long pickLong(Rng r) {
    long[] a = newLongs.length > 0 && r.chance(3, 5) ? newLongs : longs;
    if (a.length == 0) return r.below(300);
    long v = a[r.below(a.length)];
    if (a == newLongs && r.chance(1, 6)) v = derived(r, v);
    int k = r.below(8);
    if (k == 0) v--;
    else if (k == 1) v++;
    else if (k == 2) v = -v;
    return v;
  }

  /** What a new literal may stand for in an expression: a power, a product, a sum. */
  private long derived(Rng r, long v) {
    long w = newLongs[r.below(newLongs.length)];
    switch (r.below(5)) {
      case 0:
        return v >= 0 && v < 64 ? 1L << v : v * w;
      case 1:
        {
          long p = 1;
          for (int i = 0; i < v && i < 18; i++) p *= 10;
          return v > 0 && v <= 18 ? p : v * w;
        }
      case 2:
        return v + w;
      case 3:
        return w >= 0 && w < 63 ? v << w : v * w;
      default:
        return v * w;
    }
  }

  /** A number of repetitions worth trying: what the code seems to count to, else something usual. */
  public int count(Rng r, int max) {
    for (int k = 0; k < 4; k++) {
      long v = pickLong(r);
      if (r.chance(1, 3)) v = v * 2;
      if (v > 64 && v <= max) return (int) v + r.below(5);
    }
    return r.pick(new int[] {300, 1100, 2100, 4200, 9000, 17000, 33000, 66000}) % max + r.below(9);
  }

  public double pickDouble(Rng r) {
    if (r.chance(1, 3)) return pickLong(r);
    double[] a = newDoubles.length > 0 && r.chance(3, 5) ? newDoubles : doubles;
    if (a.length == 0) return r.below(300);
    double v = a[r.below(a.length)];
    int k = r.below(8);
    if (k == 0) v = Math.nextUp(v);
    else if (k == 1) v = Math.nextDown(v);
    else if (k == 2) v = -v;
    return v;
  }

  public String pickString(Rng r) {
    String[] a = newStrings.length > 0 && r.chance(3, 5) ? newStrings : strings;
    return a.length == 0 ? "" : a[r.below(a.length)];
  }

  public static void main(String[] a) throws IOException {
    Files.write(Paths.get(a[1]), scan(a[0]), StandardCharsets.UTF_8);
  }
}
