package fpv;

/** Entry point: Main ID base sourceDir. */
public final class Main {
  public static void main(String[] a) throws Throwable {
    String id = a[0];
    String base = a[1];
    String src = a[2];
    long seed;
    try {
      seed = Long.parseLong(System.getenv().getOrDefault("VERIF_SEED", "1").trim());
    } catch (NumberFormatException e) {
      seed = Rng.hash(System.getenv("VERIF_SEED")) >>> 1;
    }
    String tier = "thorough".equals(System.getenv("VERIF_TIER")) ? "thorough" : "quick";
    Report rep = new Report(id, "exploration", tier, seed, base);
    int status;
    try {
      Check c = (Check) Class.forName("fpv.Check" + id).getDeclaredConstructor().newInstance();
      rep = new Report(id, c.level(), tier, seed, base);
      rep.rule = c.rule();
      rep.source = src;
      c.rep = rep;
      c.gen = new Gen(Dict.load(src, base + "/harness/known_literals.txt"));
      rep.extra("library_texts_as_arguments", Gen.loadRopes());
      if (tier.equals("thorough")) {
        c.scale = Double.parseDouble(System.getenv().getOrDefault("VERIF_SCALE", "80"));
        c.cap = Double.parseDouble(System.getenv().getOrDefault("VERIF_CAP", "1200"));
      } else {
        c.scale = Double.parseDouble(System.getenv().getOrDefault("VERIF_SCALE", "3"));
      }
      c.run();
    } catch (Throwable t) {
      t.printStackTrace();
      if (Lib.fromLibrary(t)) rep.violation("unexpected failure of the library", Report.trace(t));
      else rep.inconclusive = "harness failed: " + t;
    }
    try {
      status = rep.finish();
    } catch (Throwable t) {
      t.printStackTrace();
      status = 2;
    }
    System.out.flush();
    Runtime.getRuntime().halt(status);
  }
}
