package sx;

import java.lang.reflect.InvocationTargetException;
import java.net.MalformedURLException;
import java.net.URL;
import java.net.URLClassLoader;
import java.nio.file.Path;
import java.util.List;
import java.util.Map;

/** Runs a harness on the real classes with concrete inputs. */
final class Replay {
    static final class Outcome {
        String kind; // ok, check, uncaught, hang, diverged
        String message = "";
        long[] observed;
        String stack = "";
    }

    private Replay() {}

    static Outcome run(final String harness, final Map<String, Object> params, final Trace t, final List<Path> path,
            final long timeoutMs) {
        final Outcome o = new Outcome();
        final URL[] urls = new URL[path.size()];
        try {
            for (int i = 0; i < urls.length; i++) {
                urls[i] = path.get(i).toUri().toURL();
            }
        } catch (MalformedURLException e) {
            throw new IllegalStateException(e);
        }
        final Sym.Tape tape = new Sym.Tape();
        tape.kinds = t.kinds;
        tape.values = t.values;
        tape.cuts = t.cuts;
        tape.params = params;
        tape.scheduler = new Scheduler(t.schedule, "deadlock".equals(t.kind));
        final Throwable[] thrown = new Throwable[1];
        final Thread th = new Thread(null, () -> {
            Sym.load(tape);
            try {
                final ClassLoader loader = Conc.loader(urls, t);
                Class.forName(harness, true, loader).getMethod("run").invoke(null);
            } catch (InvocationTargetException e) {
                thrown[0] = e.getCause();
            } catch (Throwable e) {
                thrown[0] = e;
            }
        }, "replay", 16 << 20);
        th.setDaemon(true);
        th.start();
        try {
            th.join(timeoutMs);
        } catch (InterruptedException e) {
            throw new IllegalStateException(e);
        }
        if (th.isAlive()) {
            o.kind = "hang";
            for (StackTraceElement e : th.getStackTrace()) {
                o.stack += "    at " + e + "\n";
            }
        } else if (thrown[0] == null || thrown[0] instanceof Sym.End) {
            o.kind = "ok";
        } else if (thrown[0] instanceof Sym.Violated) {
            o.kind = "check";
            o.message = thrown[0].getMessage();
        } else if (thrown[0] instanceof Sym.Diverged) {
            o.kind = "diverged";
            o.message = thrown[0].getMessage();
        } else {
            o.kind = "uncaught";
            o.message = thrown[0].getClass().getName();
            o.stack = thrown[0] + "\n";
        }
        if (thrown[0] != null && !(thrown[0] instanceof Sym.End)) {
            int k = 0;
            for (StackTraceElement e : thrown[0].getStackTrace()) {
                if (k++ < 12) {
                    o.stack += "    at " + e + "\n";
                }
            }
        }
        o.observed = new long[tape.observed.size()];
        for (int i = 0; i < o.observed.length; i++) {
            o.observed[i] = tape.observed.get(i);
        }
        return o;
    }
}
