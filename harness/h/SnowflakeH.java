package h;

import com.bytefacets.collections.id.Snowflake;
import sx.Sym;

/** A generator of ids under a clock that may do anything. mode 0: order; 1: decoding; 2: two generators. */
public final class SnowflakeH {
    private static final long EPOCH = 1676731200000L;

    private SnowflakeH() {}

    static final class ClockFailure extends RuntimeException {
        private static final long serialVersionUID = 1L;
    }

    static final class Clock {
        boolean still; // the same reading as before
        boolean faults;
        long reading;
        int reads; // since a call began
        long first; // the first reading of a call
        boolean failed;
        int waits;
        long used; // the last timestamp that went into an id

        long read() {
            if (still) {
                if (reads++ > 0) { // waiting for the next millisecond
                    final long was = reading;
                    reading = any();
                    Sym.assume(reading > was);
                }
                return reading;
            }
            if (faults && Sym.choose(2) == 0) {
                failed = true;
                throw new ClockFailure();
            }
            if (reads >= waits) { // enough waiting: the clock moves on
                reading = any();
                Sym.assume(reading > used);
            } else {
                reading = any();
            }
            if (reads++ == 0) {
                first = reading;
            }
            return reading;
        }
    }

    static long any() {
        return EPOCH + (Sym.anyLong() & (1L << 41) - 1);
    }

    public static void run() {
        switch (Sym.param("mode", 0)) {
            case 0:
                order();
                break;
            case 1:
                decode();
                break;
            default:
                two();
                break;
        }
    }

    private static void order() {
        final Clock clock = new Clock();
        clock.faults = Sym.param("faults", 0) == 1;
        clock.waits = Sym.param("waits", 3);
        final String name = Sym.anyString(1);
        final Snowflake s = Snowflake.snowflake(clock::read, () -> name);
        final int[] before = {0, 1, 2, 4094, 4095, 4096, 4097, 8192, 8195};
        final int n = before[Sym.choose(Sym.param("starts", before.length))];
        long last = -1;
        long used = -1;
        if (n > 0) {
            clock.still = true;
            clock.reading = any();
            for (int i = 0; i < n; i++) {
                clock.reads = 0;
                final long id = s.nextId();
                if (i > 0 && ((i + 2) % 4096 < 5 || i >= n - 2)) {
                    Sym.check(id > last, "each id is greater than the one before");
                }
                last = id;
            }
            used = clock.reading;
            clock.still = false;
        }
        for (int i = 0; i < Sym.param("calls", 3); i++) {
            clock.reads = 0;
            clock.failed = false;
            clock.used = used;
            try {
                final long id = s.nextId();
                Sym.check(clock.first >= used, "a clock behind the last used timestamp is refused");
                Sym.check(!clock.failed, "the clock worked");
                if (last >= 0) {
                    Sym.check(id > last, "each id is greater than the one before");
                }
                Sym.check(id >= 0, "ids are not negative");
                if (clock.reads > 1) {
                    Sym.cover("waited");
                }
                last = id;
                used = s.parse(id)[0];
                Sym.checkEq(used, clock.reading, "the timestamp of an id is the one the clock showed last");
                Sym.cover("id");
            } catch (IllegalStateException e) {
                Sym.check(clock.reads > 0 && clock.first < used, "only a clock behind the last used timestamp is refused");
                Sym.cover("refused");
            } catch (ClockFailure e) {
                Sym.check(clock.failed, "the clock failed");
                Sym.cover("failed");
            }
        }
    }

    private static void decode() {
        final Clock clock = new Clock();
        clock.still = true;
        clock.reading = any();
        final int len = Sym.choose(Sym.param("name", 3));
        final String name = Sym.anyString(len == 2 ? Sym.param("long", 7) : len);
        final Snowflake s = Snowflake.snowflake(clock::read, () -> name);
        final int n = Sym.param("ids", 40);
        long node = -1;
        for (int i = 0; i < n; i++) {
            clock.reads = 0;
            final long[] p = s.parse(s.nextId());
            Sym.checkEq(p.length, 3, "three parts");
            Sym.checkEq(p[0], clock.reading, "an id decodes to the time of the clock");
            Sym.checkEq(p[2], (long) i, "an id decodes to its number within the millisecond");
            if (i == 0) {
                node = p[1];
                Sym.check(node >= 0 && node <= 1023, "node ids are in [0, 1023]");
            } else {
                Sym.checkEq(p[1], node, "the node id stays the same");
            }
        }
        final long was = clock.reading;
        clock.reads = 0;
        clock.reading = any();
        Sym.assume(clock.reading > was);
        final long[] p = s.parse(s.nextId());
        Sym.checkEq(p[0], clock.reading, "an id decodes to the time of the clock");
        Sym.checkEq(p[1], node, "the node id stays the same");
        Sym.checkEq(p[2], 0L, "the first id of a millisecond has number 0");
        final long id = Sym.anyLong();
        final long[] q = s.parse(id);
        Sym.checkEq((q[0] - EPOCH) * (1L << 22) + q[1] * 4096 + q[2], id, "any id is the sum of its parts");
        Sym.check(q[1] >= 0 && q[1] <= 1023, "node ids are in [0, 1023]");
        Sym.check(q[2] >= 0 && q[2] <= 4095, "sequence numbers are in [0, 4095]");
        Sym.cover("decoded");
    }

    private static void two() {
        final Clock a = new Clock();
        final Clock b = new Clock();
        a.still = true;
        b.still = true;
        a.reading = any();
        b.reading = any();
        final String x = Sym.anyString(Sym.param("long", 7));
        final String y = Sym.anyString(Sym.param("long", 7));
        final Snowflake s = Snowflake.snowflake(a::read, () -> x);
        final Snowflake t = Snowflake.snowflake(b::read, () -> y);
        long i = s.nextId();
        long j = t.nextId();
        for (int k = Sym.choose(3); k > 0; k--) {
            a.reads = 0;
            i = s.nextId();
        }
        for (int k = Sym.choose(3); k > 0; k--) {
            b.reads = 0;
            j = t.nextId();
        }
        if (s.parse(i)[1] != t.parse(j)[1]) {
            Sym.check(i != j, "generators with different node ids never produce the same id");
            Sym.cover("different nodes");
        }
        b.reads = 0;
        final Snowflake again = Snowflake.snowflake(b::read, () -> new String(x));
        Sym.checkEq(again.parse(again.nextId())[1], s.parse(i)[1], "the node id depends on the name alone");
    }
}
