package fpv.race;

import java.util.ArrayList;
import java.util.HashMap;
import java.util.List;
import java.util.Map;

/** Called from the instrumented library before every step. */
public final class Sched {
  private static final List<String> NAMES = new ArrayList<>();
  private static final Map<String, Integer> IDS = new HashMap<>();

  private Sched() {}

  /** Site numbers are the same in every loader. Odd numbers are steps on state that may be shared. */
  public static synchronized int site(String name, boolean hot) {
    Integer i = IDS.get(name);
    if (i == null) {
      i = NAMES.size() * 2 + (hot ? 1 : 0);
      NAMES.add(name);
      IDS.put(name, i);
    }
    return i;
  }

  public static synchronized String name(int site) {
    return NAMES.get(site >> 1);
  }

  public static synchronized int sites() {
    return NAMES.size();
  }

  public static void point(int site) {
    Thread t = Thread.currentThread();
    if (t instanceof RaceThread) {
      RaceThread r = (RaceThread) t;
      r.group.hit(r, site);
    }
  }

  /** An access to a field or array (of o, or static) is about to happen. */
  public static void touch(Object o, int key, boolean write) {
    Thread t = Thread.currentThread();
    if (t instanceof RaceThread) {
      RaceThread r = (RaceThread) t;
      r.group.touch(r, o, key, write);
    }
  }
}
