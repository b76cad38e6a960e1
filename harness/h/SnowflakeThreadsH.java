package h;

import com.bytefacets.collections.id.Snowflake;
import sx.Sym;

/** One generator of ids used by several threads, in any interleaving, under any clock. */
public final class SnowflakeThreadsH {
    private static final long EPOCH = 1676731200000L;

    private SnowflakeThreadsH() {}

    static final class Clock {
        boolean still;
        boolean back; // may be behind what it showed before
        int left; // readings before it moves on
        long reading = EPOCH + (Sym.anyLong() & (1L << 40) - 1);
        long most = reading;

        long read() {
            if (!still) {
                final long was = reading;
                reading = EPOCH + (Sym.anyLong() & (1L << 41) - 1);
                if (left-- <= 0) {
                    Sym.assume(reading > most); // enough waiting: the clock moves on
                } else if (!back) {
                    Sym.assume(reading >= was);
                }
                if (reading > most) {
                    most = reading;
                }
            }
            return reading;
        }
    }

    static final class Caller implements Runnable {
        final Snowflake s;
        final Log log;
        final int calls;
        final boolean back;

        Caller(final Snowflake s, final Log log, final int calls, final boolean back) {
            this.s = s;
            this.log = log;
            this.calls = calls;
            this.back = back;
        }

        @Override
        public void run() {
            for (int i = 0; i < calls; i++) {
                final long before = log.last; // every id handed out before this call began
                try {
                    final long id = s.nextId();
                    Sym.check(id > before, "an id is greater than every id handed out before the call began");
                    for (int k = 0; k < log.n; k++) {
                        Sym.check(log.ids[k] != id, "no id is handed out twice");
                    }
                    log.ids[log.n++] = id;
                    if (id > log.last) {
                        log.last = id;
                    }
                } catch (IllegalStateException e) {
                    Sym.check(back, "a clock that never goes back is not refused");
                    log.refused++;
                }
            }
        }
    }

    static final class Log {
        final long[] ids = new long[16];
        int n;
        long last = -1;
        int refused;
    }

    public static void run() {
        final Clock clock = new Clock();
        clock.still = true;
        clock.back = Sym.param("back", 0) == 1;
        final Snowflake s = Snowflake.snowflake(clock::read, () -> "node");
        final Log log = new Log();
        for (int i = Sym.param("used", 0); i > 0; i--) {
            log.last = s.nextId();
        }
        clock.still = false;
        final int threads = Sym.param("threads", 2);
        final int calls = Sym.param("calls", 1);
        clock.left = threads * calls + Sym.param("waits", 1);
        Sym.preemptions(Sym.param("preemptions", 2));
        final int[] t = new int[threads];
        for (int i = 0; i < threads; i++) {
            t[i] = Sym.spawn(new Caller(s, log, calls, clock.back));
        }
        for (int i = 0; i < threads; i++) {
            Sym.join(t[i]);
        }
        Sym.checkEq(log.n + log.refused, threads * calls, "every call ends");
        Sym.cover("done");
    }
}
