package fpv.race;

import java.io.IOException;
import java.nio.file.Files;
import java.nio.file.Path;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;
import java.util.stream.Collectors;
import java.util.stream.Stream;

/** A private copy of the library, so its static state starts afresh. */
public final class Loader extends ClassLoader {
  /** Class name to instrumented bytes; shared by all loaders. */
  private static final Map<String, byte[]> CODE = new TreeMap<>();

  public static synchronized void init() throws IOException {
    if (!CODE.isEmpty()) return;
    read(Paths.get(System.getProperty("fpv.lib")), "io.fastprintf.", true);
    read(Paths.get(System.getProperty("fpv.race")), "fpv.iso.", false);
  }

  private static void read(Path dir, String prefix, boolean weave) throws IOException {
    List<Path> files;
    try (Stream<Path> s = Files.walk(dir)) {
      files = s.filter(p -> p.toString().endsWith(".class")).sorted().collect(Collectors.toList());
    }
    for (Path p : files) {
      String n = dir.relativize(p).toString().replace('/', '.');
      n = n.substring(0, n.length() - 6);
      if (!n.startsWith(prefix)) continue;
      byte[] b = Files.readAllBytes(p);
      CODE.put(n, weave ? Weaver.weave(b) : b);
    }
  }

  public Loader() {
    super(Loader.class.getClassLoader());
  }

  @Override
  protected Class<?> loadClass(String name, boolean resolve) throws ClassNotFoundException {
    byte[] b = CODE.get(name);
    if (b == null) return super.loadClass(name, resolve);
    synchronized (getClassLoadingLock(name)) {
      Class<?> c = findLoadedClass(name);
      if (c == null) c = defineClass(name, b, 0, b.length);
      return c;
    }
  }

  /** Runs all static initialisers, so no run holds a class initialisation lock while it waits. */
  public void initialise() {
    List<String> names = new ArrayList<>(CODE.keySet());
    for (String n : names) {
      try {
        Class.forName(n, true, this);
      } catch (Throwable t) {
        // shows again where the class is used
      }
    }
  }

  public Scenario scenario() throws Exception {
    return (Scenario) loadClass("fpv.iso.Jobs").getDeclaredConstructor().newInstance();
  }
}
