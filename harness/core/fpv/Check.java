package fpv;

/** One property's check. */
public abstract class Check {
  public Report rep;
  public Gen gen;
  /** Multiplies case counts (1 = quick). */
  public double scale = 1;
  public double cap = 240;

  public abstract String level();

  public abstract String rule();

  public abstract void run() throws Throwable;

  protected void cases(String phase, long n, Runner.Case body) throws InterruptedException {
    Runner.run(rep, phase, Math.max(1, (long) (n * scale)), cap, body);
  }

  protected void fail(String phase, long index, String what, String detail) {
    rep.violation(what, "case: " + phase + "/" + index + "\n" + detail);
  }
}
