package fpv.race;

/** A thread whose library steps are scheduled. */
public final class RaceThread extends Thread {
  public final Group group;
  public final int idx;
  /** Steps left near an access to state that threads were seen to share and change. */
  int near;

  public RaceThread(Group g, int idx) {
    super(null, null, "race-" + idx, 1L << 21);
    this.group = g;
    this.idx = idx;
    setDaemon(true);
  }

  @Override
  public void run() {
    group.loop(this);
  }
}
