package fpv;

/** Small deterministic generator (SplitMix64), identical on every JDK. */
public final class Rng {
  private long s;

  public Rng(long seed) {
    this.s = seed;
  }

  public static long mix(long z) {
    z += 0x9E3779B97F4A7C15L;
    z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
    z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL;
    return z ^ (z >>> 31);
  }

  public static long mix(long a, long b) {
    return mix(mix(a) ^ (b * 0xD6E8FEB86659FD93L + 0x2545F4914F6CDD1DL));
  }

  public static long hash(CharSequence text) {
    String cs = text.toString();
    long h = 0xCBF29CE484222325L;
    int n = cs.length();
    for (int i = 0; i < n; i++) {
      h = (h ^ cs.charAt(i)) * 0x100000001B3L;
    }
    return mix(h ^ n);
  }

  public long next() {
    s += 0x9E3779B97F4A7C15L;
    long z = s;
    z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
    z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL;
    return z ^ (z >>> 31);
  }

  /** Uniform in [0, n). */
  public int below(int n) {
    return (int) (((next() >>> 32) * n) >>> 32);
  }

  /** Uniform in [lo, hi]. */
  public int range(int lo, int hi) {
    return lo + below(hi - lo + 1);
  }

  public boolean chance(int num, int den) {
    return below(den) < num;
  }

  public boolean bool() {
    return next() < 0;
  }

  public char pick(String s) {
    return s.charAt(below(s.length()));
  }

  public <T> T pick(T[] a) {
    return a[below(a.length)];
  }

  public int pick(int[] a) {
    return a[below(a.length)];
  }

  public long bits(int n) {
    return n == 0 ? 0 : next() >>> (64 - n);
  }
}
