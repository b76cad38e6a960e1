package sx;

import java.util.ArrayList;
import java.util.List;

/**
 * What a harness can ask for. The engine gives these methods their symbolic meaning; the bodies here are the concrete
 * one, used when a counterexample or a sampled path is replayed against the real classes on a real JVM.
 */
public final class Sym {
    private Sym() {}

    /** A property was falsified in a concrete run. */
    public static final class Violated extends Error {
        private static final long serialVersionUID = 1L;

        public Violated(final String m) {
            super(m);
        }
    }

    /** The concrete run does not follow the recorded path. */
    public static final class Diverged extends Error {
        private static final long serialVersionUID = 1L;

        public Diverged(final String m) {
            super(m);
        }
    }

    /** The end of the recorded path. */
    public static final class End extends Error {
        private static final long serialVersionUID = 1L;
    }

    /** What to feed to a concrete run. */
    public static final class Tape {
        public char[] kinds;
        public long[] values;
        public int at;
        public int cuts;
        public java.util.Map<String, Object> params;
        public final List<Long> observed = new ArrayList<>();
        public Scheduler scheduler;
        /** set when a check is reached after the last input: the run follows the path to its end */
        public volatile boolean done;
    }

    private static final InheritableThreadLocal<Tape> TAPE = new InheritableThreadLocal<>();

    static void load(final Tape t) {
        TAPE.set(t);
    }

    private static Tape tape() {
        return TAPE.get();
    }

    private static long next(final char kind) {
        final Tape t = tape();
        if (t.at >= t.values.length) {
            throw new End();
        }
        if (t.kinds[t.at] != kind) {
            throw new Diverged("input " + t.at + " is of kind " + t.kinds[t.at] + ", asked for " + kind);
        }
        return t.values[t.at++];
    }

    public static boolean anyBool() {
        return next('Z') != 0;
    }

    public static byte anyByte() {
        return (byte) next('B');
    }

    public static short anyShort() {
        return (short) next('S');
    }

    public static char anyChar() {
        return (char) next('C');
    }

    public static int anyInt() {
        return (int) next('I');
    }

    public static long anyLong() {
        return next('J');
    }

    public static float anyFloat() {
        return Float.intBitsToFloat((int) next('F'));
    }

    public static double anyDouble() {
        return Double.longBitsToDouble(next('D'));
    }

    /** Any int between the two, ends included; stays symbolic. */
    public static int range(final int lo, final int hi) {
        final int v = (int) next('I');
        if (v < lo || v > hi) {
            throw new Diverged("range");
        }
        return v;
    }

    /** One of 0..n-1; each is explored as a path of its own. */
    public static int choose(final int n) {
        return (int) next('c');
    }

    /** Splits the paths by the value. */
    public static int concrete(final int v) {
        return v;
    }

    /** A string of n symbolic Latin-1 characters. */
    public static String anyString(final int n) {
        final char[] c = new char[n];
        for (int i = 0; i < n; i++) {
            c[i] = (char) (next('B') & 0xff);
        }
        return new String(c);
    }

    public static void assume(final boolean c) {
        if (!c) {
            throw new Diverged("assumption does not hold");
        }
    }

    /** Leaves the rest of this path out. */
    public static void prune() {
        throw new End();
    }

    public static void check(final boolean c, final String msg) {
        if (!c) {
            throw new Violated(msg);
        }
    }

    public static void checkEq(final int a, final int b, final String msg) {
        if (a != b) {
            throw new Violated(msg + ": " + a + " != " + b);
        }
    }

    public static void checkEq(final boolean a, final boolean b, final String msg) {
        if (a != b) {
            throw new Violated(msg + ": " + a + " != " + b);
        }
    }

    public static void checkEq(final long a, final long b, final String msg) {
        if (a != b) {
            throw new Violated(msg + ": " + a + " != " + b);
        }
    }

    /** Same bits. */
    public static void checkEq(final float a, final float b, final String msg) {
        if (Float.floatToRawIntBits(a) != Float.floatToRawIntBits(b)) {
            throw new Violated(msg + ": " + a + " != " + b);
        }
    }

    /** Same bits. */
    public static void checkEq(final double a, final double b, final String msg) {
        if (Double.doubleToRawLongBits(a) != Double.doubleToRawLongBits(b)) {
            throw new Violated(msg + ": " + a + " != " + b);
        }
    }

    public static void checkSame(final Object a, final Object b, final String msg) {
        if (a != b) {
            throw new Violated(msg);
        }
    }

    public static void fail(final String msg) {
        throw new Violated(msg);
    }

    /** Conjunction without a branch. */
    public static boolean and(final boolean a, final boolean b) {
        return a & b;
    }

    public static boolean or(final boolean a, final boolean b) {
        return a | b;
    }

    public static boolean not(final boolean a) {
        return !a;
    }

    /** Between two steps of a history: states that were seen before are not explored again. */
    public static boolean cut() {
        if (tape().cuts <= 0) {
            throw new End();
        }
        tape().cuts--;
        return true;
    }

    /** The order of the elements does not matter to the harness. */
    public static void bag(final Object[] a) {}

    public static int param(final String name, final int dflt) {
        final Object v = tape().params.get(name);
        return v == null ? dflt : ((Number) v).intValue();
    }

    public static String param(final String name, final String dflt) {
        final Object v = tape().params.get(name);
        return v == null ? dflt : v.toString();
    }

    /** A situation the exploration has to reach for its verdict to mean something. */
    public static void cover(final String label) {}

    public static void observe(final int v) {
        tape().observed.add((long) v);
    }

    public static void observe(final long v) {
        tape().observed.add(v);
    }

    public static void observe(final boolean v) {
        tape().observed.add(v ? 1L : 0L);
    }

    /** Can the object be reached from the root through fields and arrays? */
    public static boolean reachable(final Object root, final Object target) {
        return Reach.reachable(root, target);
    }

    public static boolean symbolic() {
        return false;
    }

    public static void preemptions(final int n) {}

    /** Called before everything another thread can see. */
    public static void point() {
        final Tape t = tape();
        if (t != null && t.scheduler != null) {
            t.scheduler.point();
        }
    }

    public static int spawn(final Runnable r) {
        return tape().scheduler.spawn(r);
    }

    public static void join(final int t) {
        tape().scheduler.join(t);
    }
}
