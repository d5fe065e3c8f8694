package fpv.race;

/** What the threads of one run do. Plain data, made outside the isolated loader. */
public final class Plan {
  public int kind;
  public int threads;
  /** How the shared formatter is made. */
  public int variant;
  public long salt;
  /** Calls of each thread. */
  public Call[][] calls;
  /** Text behind shared text values. */
  public String[] texts;

  public String describe() {
    StringBuilder sb = new StringBuilder("kind " + kind + " variant " + variant + " threads " + threads);
    for (int t = 0; t < calls.length; t++) {
      for (Call c : calls[t]) {
        sb.append("\n thread ").append(t).append(": format \"").append(fpv.Report.quote(c.fmt)).append('"');
        for (Object v : c.vals) sb.append("\n   arg: ").append(fpv.Arg.describe(v));
      }
    }
    return sb.toString();
  }
}
