package fpv;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import java.io.IOException;
import java.io.UncheckedIOException;
import java.io.Writer;
import java.nio.BufferOverflowException;
import java.nio.CharBuffer;
import java.time.ZoneOffset;
import java.time.ZonedDateTime;
import java.util.ArrayList;
import java.util.List;

/** Injected faults in destinations and arguments. */
public final class CheckC12 extends Check {
  @Override
  public String level() {
    return "fault_enumeration";
  }

  @Override
  public String rule() {
    return "for each generated program every write call of the destination (before and midway), every"
        + " character position of a writer, every callback into an argument and every unconvertible"
        + " argument position is made to fail once with each error kind; one evaluation = one injected"
        + " fault judged; distinct by program, fault position and kind";
  }

  @Override
  public void run() throws Throwable {
    cases(
        "sinks",
        25_000,
        (r, i) -> {
          Program p = Program.random(gen, r, 7, r.chance(1, 30) ? 3000 : 40, "diuoxXfFeEgGaAcsSsstTp");
          Program.Expect e;
          try {
            e = Program.eval(p.items, p.args);
          } catch (Ref.Unspecified x) {
            return;
          }
          if (e.refused) refused(r, i, p, e);
          else sinks(r, i, p, e.text);
        });
    cases("callbacks", 15_000, (r, i) -> callbacks(r, i));
    if (Gen.lazies != null) cases("deferred", 15_000, (r, i) -> deferred(r, i));
    cases("unconvertible", 25_000, (r, i) -> unconvertible(r, i));
  }

  static final int KINDS = 32;

  static Throwable fault(int kind) {
    switch (kind) {
      case 0:
        return new IOException("injected");
      case 1:
        return new IllegalStateException("injected");
      case 2:
        return new Injected();
      case 3:
        return new UncheckedIOException(new IOException("injected inside"));
      case 4:
        return new java.io.InterruptedIOException("injected");
      case 5:
        return new NullPointerException("injected");
      case 7:
        return new IOException("injected", new IOException("injected inside"));
      case 8:
        return new IOException((String) null);
      case 9:
        return new java.nio.channels.ClosedByInterruptException();
      case 10:
        return new IOException(new IllegalStateException("injected inside"));
      case 11:
        {
          IOException e = new java.io.EOFException();
          e.addSuppressed(new IOException("injected beside"));
          return e;
        }
      case 12:
        return new java.nio.charset.MalformedInputException(3);
      case 13:
        return new io.fastprintf.PrintfException("injected");
      case 14:
        return new RuntimeException(new IOException("injected inside"));
      case 15:
        return new java.time.DateTimeException("injected");
      case 16:
        return new NumberFormatException("injected");
      case 17:
        return new OutOfMemoryError("injected");
      case 18:
        return new UnsupportedOperationException("injected");
      case 19:
        return new StringIndexOutOfBoundsException("injected");
      case 20:
        return new IllegalArgumentException("injected");
      case 21:
        return new ClassCastException("injected");
      case 22:
        return new ArithmeticException("injected");
      case 23:
        return new java.nio.ReadOnlyBufferException();
      case 24:
        return new BufferOverflowException();
      case 25:
        return new java.util.ConcurrentModificationException("injected");
      case 26:
        return new java.util.NoSuchElementException("injected");
      case 27:
        return new AssertionError("injected");
      case 28:
        return new NoClassDefFoundError("injected");
      case 29:
        return new java.nio.channels.ClosedChannelException();
      case 30:
        return new java.io.CharConversionException("injected");
      case 31:
        return new SecurityException("injected");
      default:
        return new StackOverflowError("injected");
    }
  }

  static final class Injected extends Error {
    Injected() {
      super("injected");
    }
  }

  /** Destination failing at one of its calls. */
  static final class Failing extends Sinks.Log {
    final int at;
    final Throwable fault;
    final boolean midway;
    int n;
    boolean failed;
    int after;

    Failing(int how, int at, Throwable fault, boolean midway) {
      super(how);
      this.at = at;
      this.fault = fault;
      this.midway = midway;
    }

    private boolean now() {
      if (failed) {
        after++;
        return false;
      }
      return n++ == at;
    }

    private void fail() {
      failed = true;
      Trap.<RuntimeException>sneaky(fault);
    }

    @Override
    public Appendable append(CharSequence s) throws IOException {
      if (now()) {
        if (midway) got.append(s, 0, s.length() / 2);
        fail();
      }
      return super.append(s);
    }

    @Override
    public Appendable append(CharSequence s, int from, int to) throws IOException {
      if (now()) {
        if (midway) got.append(s, from, from + (to - from) / 2);
        fail();
      }
      return super.append(s, from, to);
    }

    @Override
    public Appendable append(char c) throws IOException {
      if (now()) fail();
      return super.append(c);
    }
  }

  /** Writer failing once it has taken a number of characters. */
  static final class FullWriter extends Writer {
    final StringBuilder got = new StringBuilder();
    final int room;
    final Throwable fault;
    boolean failed;
    int after;

    FullWriter(int room, Throwable fault) {
      this.room = room;
      this.fault = fault;
    }

    @Override
    public void write(char[] a, int off, int len) {
      if (failed) {
        after++;
        return;
      }
      if (got.length() + len > room) {
        got.append(a, off, room - got.length());
        failed = true;
        Trap.<RuntimeException>sneaky(fault);
      }
      got.append(a, off, len);
    }

    @Override
    public void flush() {}

    @Override
    public void close() {}
  }

  private void sinks(Rng r, long i, Program p, String want) {
    FastPrintf plain = FastPrintf.compile(p.fmt);
    FastPrintf cached = plain.enableThreadLocalCache();
    Args args = Lib.args(p.args);
    Failing probe = new Failing(r.below(Sinks.READERS), -1, null, false);
    try {
      plain.format(probe, args);
    } catch (Throwable t) {
      fail("sinks", i, "unexpected exception", p.show() + "\n" + t + CheckC11.trace(t));
      return;
    }
    int w = probe.calls();
    rep.count("write positions", w);
    int limit = Math.min(w, 60);
    for (int k = 0; k < limit; k++) {
      int at = w <= 60 ? k : r.below(w);
      for (int kind = 0; kind < KINDS; kind++) {
        if (kind > 2 && !r.chance(1, kind < 7 ? 3 : 6)) continue;
        Failing d = new Failing(r.below(Sinks.READERS), at, fault(kind), r.bool());
        FastPrintf f = r.bool() ? plain : cached;
        Throwable t = null;
        try {
          f.format(d, args);
        } catch (Throwable x) {
          t = x;
        }
        rep.judged();
        rep.distinct(Rng.mix(p.hash(), at * 64 + kind));
        if (!verdict("sinks", i, p, want, t, d.fault, d.got.toString(), d.failed, d.after, "write " + at)) return;
      }
      if (k % 8 == 0 && !reuse("sinks", i, p, want, plain, cached, args)) return;
    }
    if (!reuse("sinks", i, p, want, plain, cached, args)) return;
    // writers that fill up
    int n = want.length();
    int step = Math.max(1, n / 25);
    for (int room = r.below(step); room < n; room += step) {
      int kind = r.below(KINDS);
      FullWriter d = new FullWriter(room, fault(kind));
      FastPrintf f = r.bool() ? plain : cached;
      Throwable t = null;
      try {
        f.format(d, args);
      } catch (Throwable x) {
        t = x;
      }
      rep.judged();
      rep.count("writer positions");
      if (!verdict("sinks", i, p, want, t, d.fault, d.got.toString(), d.failed, d.after, "room " + room)) return;
      CharBuffer b = CharBuffer.allocate(room);
      t = null;
      try {
        f.format(b, args);
      } catch (Throwable x) {
        t = x;
      }
      rep.judged();
      String got = new String(b.array(), 0, b.position());
      if (!(t instanceof BufferOverflowException) || !want.startsWith(got)) {
        fail("sinks", i, "full character buffer", p.show() + "\nroom " + room + "\ncontent " + Report.quote(got) + "\nthrown " + t);
        return;
      }
    }
    reuse("sinks", i, p, want, plain, cached, args);
    if (rep.wantsSamples() && p.fmt.length() < 100) rep.sample(w + " writes of " + p.show().replace("\n", " "));
  }

  private boolean verdict(
      String phase, long i, Program p, String want, Throwable t, Throwable fault, String got, boolean failed, int after, String where) {
    String problem = null;
    if (!failed) problem = "the destination was not reached";
    else if (t == null) problem = "the failure was lost";
    else if (fault instanceof IOException) {
      if (!(t instanceof UncheckedIOException) || t.getCause() != fault) problem = "not the unchecked I/O exception with this cause";
    } else if (t != fault) {
      problem = "the failure did not propagate unchanged";
    }
    if (problem == null && !want.startsWith(got)) problem = "what was written is not a prefix of the output";
    if (problem == null && after > 0) problem = "writing went on after the failure";
    if (problem == null) return true;
    fail(
        phase,
        i,
        problem,
        p.show() + "\nfault " + fault + " at " + where + "\nthrown " + t + "\nwritten " + Report.quote(got) + "\noutput  " + Report.quote(want));
    return false;
  }

  private boolean reuse(String phase, long i, Program p, String want, FastPrintf plain, FastPrintf cached, Args args) {
    for (int k = 0; k < 3; k++) {
      FastPrintf f = k == 0 ? plain : cached;
      Lib.Out o = k == 2 ? Lib.call(() -> f.format(new StringBuilder(), args).toString()) : Lib.call(() -> f.format(args));
      rep.count("uses after a failure");
      if (o.error != null || !o.text.equals(want)) {
        fail(phase, i, "wrong result after a failure", p.show() + "\nvariant " + k + "\nexpected " + Report.quote(want) + "\nactual   " + o);
        return false;
      }
    }
    return true;
  }

  private void refused(Rng r, long i, Program p, Program.Expect e) {
    FastPrintf f = FastPrintf.compile(p.fmt);
    if (r.bool()) f = f.enableThreadLocalCache();
    for (int k = 0; k < 3; k++) {
      Sinks.Log d = new Sinks.Log(r.below(Sinks.READERS));
      StringBuilder b = new StringBuilder();
      Throwable t = null;
      try {
        if (k == 0) f.format(d, Lib.args(p.args));
        else if (k == 1) f.format(b, Lib.args(p.args));
        else f.format(Lib.args(p.args));
      } catch (Throwable x) {
        t = x;
      }
      rep.judged();
      rep.count("refused arguments");
      String got = k == 0 ? d.got.toString() : b.toString();
      if (!(t instanceof io.fastprintf.PrintfException) || !e.text.startsWith(got)) {
        fail("sinks", i, "refused argument", p.show() + "\nthrown " + t + "\nwritten " + Report.quote(got) + "\noutput before the argument " + Report.quote(e.text));
        return;
      }
    }
  }

  /** Fails each callback into an argument once. */
  private void callbacks(Rng r, long i) {
    Trap trap = new Trap();
    Program p = new Program();
    int n = r.range(1, 6);
    for (int k = 0; k < n; k++) {
      if (r.chance(1, 3)) p.items.add(gen.string(r, 12) + "|");
      Spec s = gen.spec(r, r.pick("sSsSdxfgctu"));
      if (s.width > 60) s.width = 1 + s.width % 60;
      if (s.prec > 60) s.prec %= 60;
      s.alt = false;
      p.items.add(s);
      String txt = gen.string(r, r.chance(1, 8) ? 700 : 30) + "q";
      Object v;
      switch (s.lower()) {
        case 's':
          v = r.bool() ? (Object) new Trap.Seq(trap, txt) : r.bool() ? new Trap.Obj(trap, txt) : new Trap.Num(trap, r.below(999));
          break;
        case 'c':
          v = new Trap.Seq(trap, txt);
          break;
        case 't':
          v = new Trap.Time(trap, ZonedDateTime.of(2000 + r.below(50), 1 + r.below(12), 1 + r.below(28), r.below(24), r.below(60), r.below(60), 0, ZoneOffset.UTC));
          s.pattern = "uuuu-MM-dd HH:mm";
          break;
        default:
          v = r.chance(1, 3) ? (Object) new Trap.Seq(trap, Integer.toString(r.below(500))) : new Trap.Num(trap, r.below(100000));
      }
      p.args.add(Arg.of(v));
    }
    p.fmt = Program.format(p.items);
    String want;
    try {
      Program.Expect e = Program.eval(p.items, p.args);
      if (e.refused) return;
      want = e.text;
    } catch (Ref.Unspecified x) {
      return;
    }
    FastPrintf plain = FastPrintf.compile(p.fmt);
    FastPrintf cached = plain.enableThreadLocalCache();
    Args args = Lib.args(p.args);
    for (int mode = 0; mode < 3; mode++) {
      trap.reset(-1, null);
      Object d0 = mode == 0 ? new Sinks.Log(0) : mode == 1 ? new StringBuilder() : null;
      FastPrintf f = r.bool() ? plain : cached;
      String got = null;
      Throwable t0 = null;
      try {
        got = run(f, d0, args);
      } catch (Throwable x) {
        t0 = x;
      }
      if (t0 != null || !got.equals(want)) {
        fail("callbacks", i, "wrong result", p.show() + "\nexpected " + Report.quote(want) + "\nactual   " + (t0 == null ? Report.quote(got) : t0 + CheckC11.trace(t0)));
        return;
      }
      int calls = trap.calls;
      rep.count("argument callbacks observed", calls);
      int limit = Math.min(calls, 30);
      for (int k = 0; k < limit; k++) {
        int at = calls <= 30 ? k : r.below(calls);
        Throwable fault;
        do {
          fault = fault(r.below(KINDS));
        } while (fault instanceof IOException); // not to be expected of an argument
        trap.reset(at, fault);
        Object d = mode == 0 ? new Sinks.Log(r.below(3)) : mode == 1 ? new StringBuilder() : null;
        Throwable t = null;
        String res = null;
        try {
          res = run(f, d, args);
        } catch (Throwable x) {
          t = x;
        }
        boolean fired = trap.fired;
        trap.reset(-1, null);
        rep.judged();
        rep.distinct(Rng.mix(Rng.mix(Rng.hash(p.fmt), i), Rng.mix(mode, at)));
        String written = d == null ? "" : d instanceof Sinks.Log ? ((Sinks.Log) d).got.toString() : d.toString();
        String problem = null;
        if (!fired) {
          // a different path was taken; then the result has to be right
          if (t != null || !want.equals(res)) problem = "wrong result";
        } else if (t == null) {
          problem = "the argument's failure was lost";
        } else {
          boolean found = false;
          Throwable c = t;
          for (int depth = 0; c != null && depth < 10; depth++, c = c.getCause()) found |= c == fault;
          // non-numeric text is refused for numbers; its own failure still has to show
          if (!found) problem = "another failure than the argument's";
          else if (!want.startsWith(written)) problem = "what was written is not a prefix of the output";
        }
        if (problem != null) {
          fail("callbacks", i, problem, p.show() + "\ncallback " + at + " of " + calls + " fails with " + fault + "\nthrown " + t + "\nresult " + res + "\nwritten " + Report.quote(written) + "\noutput " + Report.quote(want));
          return;
        }
        if (k % 6 == 0 && !reuse("callbacks", i, p, want, plain, cached, args)) return;
      }
      if (!reuse("callbacks", i, p, want, plain, cached, args)) return;
    }
  }

  /** Deferred texts that fail half made, once; afterwards the same ones are printed again. */
  private void deferred(Rng r, long i) {
    Program p = new Program();
    List<String> texts = new ArrayList<>();
    int n = r.range(1, 4);
    for (int k = 0; k < n; k++) {
      if (r.chance(1, 3)) p.items.add(gen.string(r, 12) + "|");
      Spec s = gen.spec(r, r.pick("sSsc"));
      if (s.width > 60) s.width = 1 + s.width % 60;
      if (s.prec > 60) s.prec %= 60;
      p.items.add(s);
      String txt = gen.string(r, r.chance(1, 8) ? 700 : 30) + "q";
      texts.add(txt);
      p.args.add(Arg.of(txt));
    }
    p.fmt = Program.format(p.items);
    String want;
    try {
      Program.Expect e = Program.eval(p.items, p.args);
      if (e.refused) return;
      want = e.text;
    } catch (Ref.Unspecified x) {
      return;
    }
    FastPrintf plain = FastPrintf.compile(p.fmt);
    FastPrintf cached = plain.enableThreadLocalCache();
    for (int k = 0; k < n; k++) {
      Trap trap = new Trap();
      Args args = Args.create();
      for (String t : texts) args.put(Gen.lazies.apply(t, trap::hit));
      int times = r.range(1, 3);
      FastPrintf f = r.bool() ? plain : cached;
      for (int a = 0; a < times; a++) {
        Throwable fault;
        do {
          fault = fault(r.below(KINDS));
        } while (fault instanceof IOException);
        trap.reset(k, fault);
        int mode = r.below(3);
        Object d = mode == 0 ? new Sinks.Log(r.below(3)) : mode == 1 ? new StringBuilder() : null;
        Throwable t = null;
        String res = null;
        try {
          res = run(f, d, args);
        } catch (Throwable x) {
          t = x;
        }
        boolean fired = trap.fired;
        trap.reset(-1, null);
        rep.judged();
        rep.count(fired ? "deferred texts failed" : "deferred texts not asked again");
        rep.distinct(Rng.mix(Rng.mix(Rng.hash(p.fmt), i), Rng.mix(mode, 100 + k * 10 + a)));
        String written = d == null ? "" : d instanceof Sinks.Log ? ((Sinks.Log) d).got.toString() : d.toString();
        boolean found = false;
        Throwable c = t;
        for (int depth = 0; c != null && depth < 10; depth++, c = c.getCause()) found |= c == fault;
        if (fired ? !found || !want.startsWith(written) : t != null || !want.equals(res)) {
          fail("deferred", i, fired ? "failure of a deferred text" : "wrong result", p.show() + "\ntext " + k + " fails with " + fault + "\nthrown " + t + "\nresult " + res + "\nwritten " + Report.quote(written) + "\noutput " + Report.quote(want));
          return;
        }
      }
      if (!reuse("deferred", i, p, want, plain, cached, args)) return;
    }
  }

  private static String run(FastPrintf f, Object d, Args args) {
    if (d == null) return f.format(args);
    if (d instanceof StringBuilder) return f.format((StringBuilder) d, args).toString();
    return f.format((Sinks.Log) d, args).got.toString();
  }

  /** A good program in which one argument after the other is replaced by one that cannot convert. */
  private void unconvertible(Rng r, long i) {
    Program p = Program.random(gen, r, 7, 30, "diuoxXfFeEgGaAcsStTT");
    Program.Expect good;
    try {
      good = Program.eval(p.items, p.args);
    } catch (Ref.Unspecified x) {
      return;
    }
    if (good.refused) return;
    FastPrintf plain = FastPrintf.compile(p.fmt);
    FastPrintf cached = plain.enableThreadLocalCache();
    Object[] bad = {null, new Gen.Named("x"), "not a number", "", new int[0], java.time.LocalTime.NOON};
    for (int k = 0; k < p.args.size(); k++) {
      List<Arg> l = new ArrayList<>(p.args);
      l.set(k, Arg.of(bad[r.below(bad.length)]));
      Program.Expect e;
      try {
        e = Program.eval(p.items, l);
      } catch (Ref.Unspecified x) {
        continue;
      }
      if (!e.refused) continue;
      FastPrintf f = r.bool() ? plain : cached;
      boolean builder = r.bool();
      StringBuilder b = new StringBuilder();
      Sinks.Log d = new Sinks.Log(r.below(Sinks.READERS));
      Throwable t = null;
      try {
        if (r.chance(1, 3)) f.format(Lib.args(l));
        else if (builder) f.format(b, Lib.args(l));
        else f.format(d, Lib.args(l));
      } catch (Throwable x) {
        t = x;
      }
      rep.judged();
      rep.count("refused arguments");
      rep.distinct(Rng.mix(p.hash(), 1000 + k));
      String got = builder ? b.toString() : d.got.toString();
      if (!(t instanceof io.fastprintf.PrintfException) || !e.text.startsWith(got)) {
        fail("unconvertible", i, "refused argument", Lib.show(p.fmt, l) + "\nthrown " + t + "\nwritten " + Report.quote(got) + "\noutput before the argument " + Report.quote(e.text));
        return;
      }
      if (!reuse("unconvertible", i, p, good.text, plain, cached, Lib.args(p.args))) return;
    }
  }
}
