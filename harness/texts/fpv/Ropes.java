package fpv;

import io.fastprintf.seq.AtomicSeq;
import io.fastprintf.seq.Seq;
import java.util.ArrayList;
import java.util.List;
import java.util.function.BiFunction;

/** The library's own text values as arguments. */
public final class Ropes implements BiFunction<Rng, String, CharSequence> {
  @Override
  public CharSequence apply(Rng r, String s) {
    return s.length() > 100 && r.chance(1, 3) ? many(r, s) : make(r, s, 3);
  }

  /** A deferred text that runs something in the middle of being made. */
  public static final class Lazy implements BiFunction<String, Runnable, CharSequence> {
    @Override
    public CharSequence apply(String s, Runnable between) {
      int half = s.length() / 2;
      return Seq.lazy(
          sb -> {
            sb.append(s, 0, half);
            between.run();
            sb.append(s, half, s.length());
          },
          s.length());
    }
  }

  private static AtomicSeq leaf(Rng r, String s) {
    int n = s.length();
    switch (r.below(6)) {
      case 0:
        return Seq.wrap(s);
      case 1:
        return Seq.wrap("<%d" + s + "~~", 3, 3 + n);
      case 2:
        return Seq.forArray(s.toCharArray());
      case 3:
        {
          int before = r.below(5);
          return Seq.forArray((Ref.rep('#', before) + s + "..").toCharArray(), before, n);
        }
      case 4:
        return Seq.lazy(sb -> sb.append(s), n);
      default:
        for (int i = 1; i < n; i++) if (s.charAt(i) != s.charAt(0)) return Seq.wrap(s);
        return n == 0 ? Seq.empty() : Seq.repeated(s.charAt(0), n);
    }
  }

  /** Very many small pieces, put together in different orders. */
  private static Seq many(Rng r, String s) {
    int n = s.length();
    int size = Math.max(1 + r.below(4), n / 4000 + 1);
    List<AtomicSeq> l = new ArrayList<>();
    for (int at = 0; at < n; at += size) l.add(leaf(r, s.substring(at, Math.min(n, at + size))));
    Seq q;
    switch (r.below(5)) {
      case 0:
        q = Seq.join(l);
        break;
      case 1:
        q = Seq.empty();
        for (AtomicSeq a : l) q = q.append(a);
        break;
      case 2:
        q = Seq.empty();
        for (int k = l.size() - 1; k >= 0; k--) q = q.prepend(l.get(k));
        break;
      case 3:
        {
          int half = l.size() / 2;
          q = Seq.concat(Seq.join(l.subList(0, half)), Seq.join(l.subList(half, l.size())));
          break;
        }
      default:
        q = halves(l, 0, l.size());
    }
    return r.chance(1, 4) ? Seq.concat(Seq.wrap("<>"), q.append(Seq.ch('!'))).subSequence(2, 2 + n) : q;
  }

  private static Seq halves(List<AtomicSeq> l, int from, int to) {
    if (to - from == 1) return l.get(from);
    int mid = (from + to) >>> 1;
    return Seq.concat(halves(l, from, mid), halves(l, mid, to));
  }

  private static Seq make(Rng r, String s, int depth) {
    int n = s.length();
    if (depth == 0 || n == 0) return leaf(r, s);
    int cut = r.below(n + 1);
    switch (r.below(8)) {
      case 0:
        return Seq.concat(make(r, s.substring(0, cut), depth - 1), make(r, s.substring(cut), depth - 1));
      case 1:
        return make(r, s.substring(cut), depth - 1).prepend(make(r, s.substring(0, cut), depth - 1));
      case 2:
        return make(r, s.substring(0, cut), depth - 1).append(make(r, s.substring(cut), depth - 1));
      case 3:
        {
          List<AtomicSeq> l = new ArrayList<>();
          for (int at = 0; at < n; ) {
            int to = Math.min(n, at + 1 + r.below(n / 3 + 2));
            l.add(leaf(r, s.substring(at, to)));
            at = to;
          }
          return Seq.join(l);
        }
      case 4:
        {
          int before = r.below(6), after = r.below(6);
          return make(r, Ref.rep('[', before) + s + Ref.rep(']', after), depth - 1).subSequence(before, before + n);
        }
      case 5:
        for (int i = 0; i < n; i++) if (s.charAt(i) >= 'a' && s.charAt(i) <= 'z') return leaf(r, s);
        {
          char[] c = s.toCharArray();
          for (int i = 0; i < n; i++) if (c[i] >= 'A' && c[i] <= 'Z' && r.bool()) c[i] += 32;
          return make(r, new String(c), depth - 1).upperCase();
        }
      default:
        return leaf(r, s);
    }
  }
}
