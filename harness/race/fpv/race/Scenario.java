package fpv.race;

/** Implemented inside the isolated loader. */
public interface Scenario {
  /** Builds fresh shared objects for a run. */
  void prepare(Plan p);

  /** Runs the part of one thread; null or what went wrong. */
  String run(int thread);
}
