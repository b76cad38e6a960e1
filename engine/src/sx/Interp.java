package sx;

import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import org.objectweb.asm.Handle;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.Type;
import org.objectweb.asm.tree.FieldInsnNode;
import org.objectweb.asm.tree.InvokeDynamicInsnNode;
import org.objectweb.asm.tree.MethodInsnNode;

/** A Java exception raised inside the interpreted program. */
final class JavaThrow extends RuntimeException {
    private static final long serialVersionUID = 1L;
    final int ref;

    JavaThrow(final int ref) {
        super(null, null, false, false);
        this.ref = ref;
    }
}

/** Executes bytecode over terms. Branches on terms fork the state; the solver says which sides are feasible. */
final class Interp {
    static final Integer NULL = 0;
    static final int RUNNING = 0;
    static final int CUT = 1;
    static final int DONE = 2;
    static final int DEAD = 3;

    final TF tf = new TF();
    final Smt smt;
    final ClassRepo repo;
    final HeapBase base = new HeapBase();
    final Natives natives;
    final Listener listener;
    final ArrayDeque<State> work = new ArrayDeque<>();
    final Map<String, Integer> literals = new HashMap<>();
    final Map<ClassInfo, Integer> mirrors = new HashMap<>();

    State s;
    private Thr thr;
    private Frame f;
    private int savedSp;
    private int savedPc;
    int outcome;
    int initDepth;
    long maxSteps = 4_000_000;
    long instructions;
    long forks;
    long undecided;
    int lambdaCount;
    volatile boolean stop;
    volatile String stopReason;

    /** What the exploration wants to hear about. */
    interface Listener {
        /** A property does not hold, or may not: model satisfies the path and falsifies the property. */
        void violation(State s, Map<T, Long> model, String kind, String message);

        void obligation(boolean trivially, boolean decided);

        void cover(String label);

        void called(MethodInfo m);

        Object param(String name);
    }

    Interp(final Smt smt, final ClassRepo repo, final Listener listener) {
        this.smt = smt;
        this.repo = repo;
        this.listener = listener;
        this.natives = new Natives(this);
    }

    // ---------------------------------------------------------------- decisions

    Smt.Answer query(final T extra) {
        return smt.check(Smt.slice(s.pc, s.pcN, extra));
    }

    static Map<T, Long> merge(final Map<T, Long> old, final Map<T, Long> add) {
        final Map<T, Long> m = new HashMap<>(old);
        m.putAll(add);
        return m;
    }

    /** Where the paths split, for finding out what makes a check slow (-Dsx.forks=true). */
    static final java.util.concurrent.ConcurrentHashMap<String, Integer> FORKS = Boolean.getBoolean("sx.forks")
            ? new java.util.concurrent.ConcurrentHashMap<>() : null;

    static void dumpForks() {
        if (FORKS != null) {
            FORKS.entrySet().stream().sorted((x, y) -> y.getValue() - x.getValue()).limit(12)
                    .forEach(e -> System.err.println(e.getValue() + " forks\n" + e.getKey()));
        }
    }

    private State fork() {
        forks++;
        if (FORKS != null) {
            FORKS.merge(where(s), 1, Integer::sum);
        }
        final State c = s.copy();
        final Frame cf = c.thr().top();
        cf.sp = savedSp;
        cf.pc = savedPc;
        return c;
    }

    /** Which way the condition goes in this state; the other way, if feasible, is queued as a state of its own. */
    boolean decide(final T cond) {
        if (cond.isConst()) {
            return cond.v == 1;
        }
        final T neg = tf.not(cond);
        if (s.has(cond)) {
            return true;
        }
        if (s.has(neg)) {
            return false;
        }
        final boolean here = TF.eval(cond, s.model) == 1;
        final T taken = here ? cond : neg;
        final T other = here ? neg : cond;
        final Smt.Answer a = query(other);
        if (a.status == 1) {
            if (initDepth > 0) {
                throw new Unsupported("symbolic branch in a class initialiser");
            }
            final State c = fork();
            c.addPc(other);
            c.model = merge(s.model, a.model);
            work.push(c);
            s.addPc(taken);
        } else if (a.status < 0) {
            undecided++;
            s.addPc(taken);
        }
        return here;
    }

    /** A concrete value for the term in this state; other values are explored by other states. */
    long concrete(final T t) {
        if (t.isConst()) {
            return t.v;
        }
        final long v = TF.eval(t, s.model);
        if (!decide(tf.eq(t, tf.c(t.w, v)))) {
            throw new IllegalStateException("model");
        }
        return v;
    }

    int choose(final int n) {
        int v = 0;
        if (s.forced >= 0) {
            v = s.forced;
            s.forced = -1;
        } else {
            for (int i = n - 1; i > 0; i--) {
                final State c = fork();
                c.forced = i;
                work.push(c);
            }
        }
        return v;
    }

    /** Restricts the state; false if nothing is left. */
    boolean assume(final T cond) {
        if (cond.isTrue()) {
            return true;
        }
        if (cond.isFalse()) {
            return false;
        }
        if (s.has(cond)) {
            return true;
        }
        if (TF.eval(cond, s.model) != 1) {
            final Smt.Answer a = query(cond);
            if (a.status == 0) {
                return false;
            }
            if (a.status < 0) {
                undecided++;
                return false;
            }
            s.model = merge(s.model, a.model);
        }
        s.addPc(cond);
        return true;
    }

    /** The assertion: the solver has to show it for every value the path allows. */
    void check(final T cond, final String msg) {
        if (cond.isTrue()) {
            listener.obligation(true, true);
            return;
        }
        if (TF.eval(cond, s.model) != 1) {
            listener.obligation(cond.isConst(), true);
            listener.violation(s, s.model, "check", msg);
            outcome = DEAD;
            return;
        }
        final Smt.Answer a = query(tf.not(cond));
        listener.obligation(false, a.status >= 0);
        if (a.status == 1) {
            listener.violation(s, merge(s.model, a.model), "check", msg);
            outcome = DEAD;
        }
    }

    // ---------------------------------------------------------------- objects

    T fresh(final int w, final char kind) {
        final T v = tf.var("x" + s.vars++ + (w == 64 ? "l" : w == 1 ? "b" : ""), w);
        return v;
    }

    void input(final char kind, final T t) {
        s.inputs = new Rec(kind, t, 0, s.inputs);
    }

    Object dflt(final String desc) {
        return switch (desc.charAt(0)) {
            case 'J', 'D' -> tf.i64(0);
            case 'L', '[' -> NULL;
            default -> tf.I0;
        };
    }

    int newObject(final ClassInfo c) {
        final Object[] v = new Object[c.fields.size()];
        for (int i = 0; i < v.length; i++) {
            v[i] = dflt(c.fields.get(i).desc);
        }
        return s.alloc(new HObj(c, v, s.owner));
    }

    int newArray(final ClassInfo c, final T lenTerm) {
        final Object d = dflt(c.name.substring(1));
        if (!decide(tf.cmp(T.SLE, tf.I0, lenTerm))) {
            throw vmThrow("java/lang/NegativeArraySizeException", null);
        }
        final HObj o;
        if (lenTerm.isConst() && lenTerm.v <= 1 << 17) {
            final Object[] v = new Object[(int) lenTerm.v];
            java.util.Arrays.fill(v, d);
            o = new HObj(c, v, s.owner);
            o.len = v.length;
        } else {
            o = new HObj(c, null, s.owner);
            o.sparse = new HashMap<>();
            if (lenTerm.isConst()) {
                o.len = (int) lenTerm.v;
            } else {
                o.lenTerm = lenTerm;
            }
        }
        o.dflt = d;
        s.cells += lenTerm.isConst() ? lenTerm.v : Math.max(0, lenTerm.hi);
        return s.alloc(o);
    }

    T len(final HObj a) {
        return a.lenTerm != null ? a.lenTerm : tf.i32(a.len);
    }

    int literal(final String str) {
        Integer r = literals.get(str);
        if (r == null) {
            final State keep = base.building;
            if (keep == null) {
                base.building = s;
            }
            r = string(str);
            base.building = keep;
            literals.put(str, r);
        }
        return r;
    }

    /** A string with known characters. */
    int string(final String str) {
        boolean latin = true;
        for (int i = 0; i < str.length(); i++) {
            latin &= str.charAt(i) < 256;
        }
        final Object[] v = new Object[latin ? str.length() : str.length() * 2];
        for (int i = 0; i < str.length(); i++) {
            final char c = str.charAt(i);
            if (latin) {
                v[i] = tf.i32((byte) c);
            } else {
                v[2 * i] = tf.i32((byte) c);
                v[2 * i + 1] = tf.i32((byte) (c >> 8));
            }
        }
        return stringOf(v, latin ? 0 : 1, str);
    }

    int stringOf(final Object[] bytes, final int coder, final String payload) {
        final HObj a = new HObj(repo.get("[B"), bytes, s.owner);
        a.len = bytes.length;
        a.dflt = tf.I0;
        final int ar = s.alloc(a);
        final ClassInfo c = repo.get("java/lang/String");
        final int r = newObject(c);
        final HObj o = s.get(r);
        o.f[c.findField("value").slot] = ar;
        o.f[c.findField("coder").slot] = tf.i32(coder);
        o.payload = payload;
        return r;
    }

    static final Object OPAQUE = new Object();

    /** A string whose characters are not modelled (messages). */
    int opaque() {
        final int r = newObject(repo.get("java/lang/String"));
        s.get(r).payload = OPAQUE;
        return r;
    }

    /** What a value looks like as text, or OPAQUE. */
    Object known(final Object v, final String desc) {
        if (v instanceof Integer) {
            if ((Integer) v == 0) {
                return "null";
            }
            final String t = s.get((Integer) v).cls.name.equals("java/lang/String") ? text((Integer) v) : null;
            return t == null ? OPAQUE : t;
        }
        final T x = (T) v;
        if (!x.isConst()) {
            return OPAQUE;
        }
        return switch (desc.charAt(0)) {
            case 'C' -> String.valueOf((char) x.v);
            case 'Z' -> String.valueOf(x.v == 1);
            case 'F' -> String.valueOf(Float.intBitsToFloat((int) x.v));
            case 'D' -> String.valueOf(Double.longBitsToDouble(x.v));
            default -> String.valueOf(x.v);
        };
    }

    /** The characters of a string, or null if they are not known. */
    String text(final int ref) {
        if (ref == 0) {
            return null;
        }
        final HObj o = s.get(ref);
        if (o.payload instanceof String) {
            return (String) o.payload;
        }
        if (o.payload == OPAQUE) {
            return null;
        }
        final HObj v = s.get((Integer) o.f[o.cls.findField("value").slot]);
        final T coder = (T) o.f[o.cls.findField("coder").slot];
        final StringBuilder sb = new StringBuilder();
        final int step = coder.v == 0 ? 1 : 2;
        for (int i = 0; i < v.len; i += step) {
            final T lo = (T) v.f[i];
            final T hi = step == 2 ? (T) v.f[i + 1] : tf.I0;
            if (!lo.isConst() || !hi.isConst()) {
                return null;
            }
            sb.append((char) (lo.v & 0xff | (hi.v & 0xff) << 8));
        }
        return sb.toString();
    }

    int mirror(final ClassInfo c) {
        Integer r = mirrors.get(c);
        if (r == null) {
            final State keep = base.building;
            if (keep == null) {
                base.building = s;
            }
            r = newObject(repo.get("java/lang/Class"));
            base.building = keep;
            base.get(r).payload = c;
            mirrors.put(c, r);
        }
        return r;
    }

    JavaThrow vmThrow(final String cls, final String msg) {
        final ClassInfo c = repo.get(cls);
        final int r = newObject(c);
        if (msg != null) {
            s.get(r).f[c.findField("detailMessage").slot] = literal(msg);
        }
        return new JavaThrow(r);
    }

    JavaThrow npe() {
        return vmThrow("java/lang/NullPointerException", null);
    }

    private static final Map<Character, String> BOXES = Map.of('Z', "java/lang/Boolean", 'B', "java/lang/Byte",
            'S', "java/lang/Short", 'C', "java/lang/Character", 'I', "java/lang/Integer", 'J', "java/lang/Long",
            'F', "java/lang/Float", 'D', "java/lang/Double");

    int box(final char kind, final T v) {
        final ClassInfo c = repo.get(BOXES.get(kind));
        final int r = newObject(c);
        s.get(r).f[c.findField("value").slot] = v;
        return r;
    }

    private Object convert(final Object v, final String from, final String to) {
        final char a = from.charAt(0);
        final char b = to.charAt(0);
        final boolean ap = a != 'L' && a != '[';
        final boolean bp = b != 'L' && b != '[';
        if (b == 'V' || a == 'V') {
            return null;
        }
        if (ap && !bp) {
            char k = a;
            for (Map.Entry<Character, String> e : BOXES.entrySet()) {
                if (to.equals("L" + e.getValue() + ";")) {
                    k = e.getKey();
                }
            }
            return box(k, (T) widen((T) v, a, k));
        }
        if (!ap && bp) {
            if ((Integer) v == 0) {
                throw npe();
            }
            final HObj o = s.get((Integer) v);
            final FieldInfo fi = o.cls.findField("value");
            return widen((T) o.f[fi.slot], fi.desc.charAt(0), b);
        }
        if (ap) {
            return widen((T) v, a, b);
        }
        return v;
    }

    private Object widen(final T v, final char a, final char b) {
        if (a == b) {
            return v;
        }
        final boolean ai = "BSCIZ".indexOf(a) >= 0;
        return switch (b) {
            case 'J' -> ai ? tf.i2l(v) : v;
            case 'F' -> ai ? tf.conv(T.I2F, v) : a == 'J' ? tf.conv(T.L2F, v) : v;
            case 'D' -> ai ? tf.conv(T.I2D, v) : a == 'J' ? tf.conv(T.L2D, v) : a == 'F' ? tf.conv(T.F2D, v) : v;
            default -> v;
        };
    }

    // ---------------------------------------------------------------- classes

    void init(final ClassInfo c) {
        if (c.initState != 0) {
            return;
        }
        c.initState = 1;
        if (c.superClass != null) {
            init(c.superClass);
        }
        final State st = new State(base);
        final State keepBuilding = base.building;
        final State keepS = s;
        final Thr keepThr = thr;
        final Frame keepF = f;
        final int keepSp = savedSp;
        final int keepPc = savedPc;
        final int keepOutcome = outcome;
        base.building = st;
        s = st;
        initDepth++;
        final Object[] v = new Object[c.statics.size()];
        for (int i = 0; i < v.length; i++) {
            final FieldInfo fi = c.statics.get(i);
            v[i] = dflt(fi.desc);
            if (fi.constant != null) {
                v[i] = constant(fi.constant);
            }
        }
        c.staticRef = st.alloc(new HObj(c, v, st.owner));
        final MethodInfo clinit = c.methods.get("<clinit>()V");
        if (clinit != null && !natives.skipInit(c.name)) {
            push(clinit, new Object[0]);
            runLoop();
            if (st.thrown != 0) {
                throw new Unsupported("class initialiser of " + c + " threw " + base.get(st.thrown).cls);
            }
        }
        natives.afterInit(c);
        initDepth--;
        base.building = keepBuilding;
        s = keepS;
        thr = keepThr;
        f = keepF;
        savedSp = keepSp;
        savedPc = keepPc;
        outcome = keepOutcome;
        c.initState = 2;
    }

    private Object constant(final Object k) {
        if (k instanceof Integer) {
            return tf.i32((Integer) k);
        }
        if (k instanceof Long) {
            return tf.i64((Long) k);
        }
        if (k instanceof Float) {
            return tf.i32(Float.floatToRawIntBits((Float) k));
        }
        if (k instanceof Double) {
            return tf.i64(Double.doubleToRawLongBits((Double) k));
        }
        if (k instanceof String) {
            return literal((String) k);
        }
        if (k instanceof Type) {
            final Type t = (Type) k;
            return mirror(repo.byDesc(t.getDescriptor()));
        }
        throw new Unsupported("constant " + k);
    }

    // ---------------------------------------------------------------- calls

    void push(final MethodInfo m, final Object[] args) {
        if (m.code == null) {
            if (m.isAbstract()) {
                throw vmThrow("java/lang/AbstractMethodError", null);
            }
            if (m.isNative()) {
                throw new Unsupported("native method " + m);
            }
            m.code = ClassRepo.decode(m);
        }
        if (m.calls++ == 0) {
            listener.called(m);
        }
        final Frame n = new Frame();
        n.m = m;
        n.code = m.code;
        n.loc = new Object[m.code.maxLocals];
        n.st = new Object[m.code.maxStack + 2];
        int k = 0;
        int i = 0;
        if (!m.isStatic()) {
            n.loc[k++] = args[i++];
        }
        for (char p : m.params) {
            n.loc[k] = args[i++];
            k += p == 'J' || p == 'D' ? 2 : 1;
        }
        final Thr t = s.thr();
        if (t.n > 400) {
            throw vmThrow("java/lang/StackOverflowError", null);
        }
        t.push(n);
    }

    /** Calls a method with the arguments; the result ends up on the stack of the current frame. */
    void invoke(final MethodInfo m, final Object[] args, final String adapt) {
        if (!m.natLooked) {
            m.nat = natives.find(m);
            m.natLooked = true;
        }
        if (m.nat != null) {
            final Object r = m.nat.call(args);
            if (r != Natives.NOT_HANDLED) {
                if (r != Natives.CALLED) {
                    finishCall(r, m.ret, adapt);
                }
                return;
            }
        }
        int lock = 0;
        if (m.isSync()) {
            lock = m.isStatic() ? mirror(m.owner) : (Integer) args[0];
            maybePreempt(m.owner);
            if (!enter(lock, m.owner)) {
                return; // blocked: the call is made again when the thread runs next
            }
        }
        push(m, args);
        final Frame n = s.thr().top();
        n.adapt = adapt;
        n.locked = lock;
    }

    private void finishCall(final Object r, final char ret, final String adapt) {
        Object v = r;
        final Frame fr = s.thr().top();
        if (adapt != null) {
            final int i = adapt.indexOf('>');
            final String to = adapt.substring(i + 1);
            v = convert(r, adapt.substring(0, i), to);
            if (!to.equals("V")) {
                fr.st[fr.sp++] = v;
            }
        } else if (ret != 'V') {
            fr.st[fr.sp++] = v;
        }
        fr.pc++;
    }

    /** Takes the monitor, or arranges for the thread to wait. */
    boolean enter(final int ref, final ClassInfo by) {
        final int[] m = s.monitors.get(ref);
        if (m == null) {
            s.monitors.put(ref, new int[] {s.cur, 1});
            event(by);
            return true;
        }
        if (m[0] == s.cur) {
            m[1]++;
            event(by);
            return true;
        }
        final Frame fr = s.thr().top();
        fr.sp = savedSp;
        fr.pc = savedPc;
        s.thr().waitFor = ref;
        reschedule();
        return false;
    }

    void exit(final int ref) {
        final int[] m = s.monitors.get(ref);
        if (m == null || m[0] != s.cur) {
            throw vmThrow("java/lang/IllegalMonitorStateException", null);
        }
        if (--m[1] == 0) {
            s.monitors.remove(ref);
        }
    }

    private boolean runnable(final int i) {
        final Thr t = s.threads[i];
        if (t.done) {
            return false;
        }
        if (t.waitFor != 0 && s.monitors.containsKey(t.waitFor) && s.monitors.get(t.waitFor)[0] != i) {
            return false;
        }
        return t.joinOn < 0 || s.threads[t.joinOn].done;
    }

    /** The current thread cannot go on: any thread that can is next. */
    void reschedule() {
        final List<Integer> can = new ArrayList<>();
        for (int i = 0; i < s.threads.length; i++) {
            if (i != s.cur && runnable(i)) {
                can.add(i);
            }
        }
        if (can.isEmpty()) {
            listener.violation(s, s.model, "deadlock", "no thread can make progress");
            outcome = DEAD;
            return;
        }
        for (int i = 1; i < can.size(); i++) {
            forks++;
            final State c = s.copy();
            switchTo(c, can.get(i));
            work.push(c);
        }
        switchTo(s, can.get(0));
    }

    private void switchTo(final State st, final int i) {
        st.cur = i;
        st.threads[i].waitFor = 0;
        st.threads[i].joinOn = -1;
        st.scheduled = true;
    }

    /** The threads meet in the fields of these classes. */
    private static boolean shared(final ClassInfo c) {
        return !c.jdk && !c.name.startsWith("h/");
    }

    /** The current thread does what the others can see. */
    void event(final ClassInfo by) {
        if (s.threads.length > 1 && initDepth == 0 && shared(by)) {
            s.schedule = new Rec('t', null, s.cur, s.schedule);
            s.scheduled = false;
        }
    }

    void eventOf(final int thread) {
        s.schedule = new Rec('t', null, thread, s.schedule);
        s.scheduled = false;
    }

    /** Before an access other threads can see: let each of them run first, within the bound on preemptions. */
    private void maybePreempt(final ClassInfo by) {
        if (s.threads.length < 2 || s.scheduled || initDepth > 0 || !shared(by)) {
            return;
        }
        s.points++;
        if (s.preemptions > 0) {
            for (int i = 0; i < s.threads.length; i++) {
                if (i != s.cur && runnable(i)) {
                    forks++;
                    final State c = s.copy();
                    c.preemptions--;
                    final Frame fr = c.thr().top();
                    fr.sp = savedSp; // the instruction is executed again later
                    fr.pc = savedPc;
                    switchTo(c, i);
                    work.push(c);
                }
            }
        }
        s.scheduled = true;
    }

    // ---------------------------------------------------------------- running

    /** Runs the state until it reaches a cut, ends or dies. */
    int run(final State st) {
        s = st;
        outcome = RUNNING;
        runLoop();
        return outcome;
    }

    private void runLoop() {
        final State mine = s;
        outcome = RUNNING;
        while (outcome == RUNNING) {
            thr = s.thr();
            if (thr.starts) {
                thr.starts = false;
                eventOf(s.cur);
            }
            if (thr.n == 0) {
                thr.done = true;
                if (initDepth > 0 || s.cur == 0) {
                    outcome = DONE;
                    return;
                }
                reschedule();
                continue;
            }
            f = thr.frames[thr.n - 1];
            savedSp = f.sp;
            savedPc = f.pc;
            instructions++;
            if (++s.steps > maxSteps) {
                if (initDepth > 0) {
                    throw new Unsupported("class initialiser runs too long: " + f.m);
                }
                listener.violation(s, s.model, "hang", "no end after " + maxSteps + " instructions in " + f.m);
                outcome = DEAD;
                return;
            }
            if ((instructions & 0xfff) == 0 && (stop || smt.clock.left() <= 0)) {
                throw new Stopped();
            }
            try {
                exec();
            } catch (JavaThrow e) {
                if (outcome == RUNNING) {
                    unwind(e.ref);
                }
            } catch (ArrayIndexOutOfBoundsException | ClassCastException | NullPointerException e) {
                throw new IllegalStateException("in " + f.m + " line " + f.code.line[savedPc] + " op " + f.code.op[savedPc], e);
            }
            if (s != mine) {
                throw new IllegalStateException();
            }
        }
    }

    static final class Stopped extends RuntimeException {
        private static final long serialVersionUID = 1L;
    }

    private void unwind(final int ref) {
        final ClassInfo ec = s.get(ref).cls;
        final Thr t = s.thr();
        s.scheduled = false;
        while (t.n > 0) {
            final Frame fr = t.top();
            final Code c = fr.code;
            for (int i = 0; i < c.tryStart.length; i++) {
                if (fr.pc >= c.tryStart[i] && fr.pc < c.tryEnd[i]
                        && (c.tryType[i] == null || ec.isSubOf(repo.get(c.tryType[i])))) {
                    fr.sp = 0;
                    fr.st[fr.sp++] = ref;
                    fr.pc = c.tryHandler[i];
                    return;
                }
            }
            if (fr.locked != 0) {
                exit(fr.locked);
            }
            if (t.n == 1 && initDepth == 0) {
                String at = "";
                listener.violation(s, s.model, "uncaught", ec.javaName() + at);
                outcome = DEAD;
                return;
            }
            t.frames[--t.n] = null;
        }
        s.thrown = ref;
        outcome = DEAD;
    }

    String where(final State st) {
        final StringBuilder sb = new StringBuilder();
        final Thr t = st.thr();
        for (int i = t.n - 1; i >= 0; i--) {
            final Frame fr = t.frames[i];
            sb.append("  at ").append(fr.m.owner.javaName()).append('.').append(fr.m.name).append(':')
                    .append(fr.code.line[fr.pc]).append('\n');
        }
        return sb.toString();
    }

    private Object pop() {
        return f.st[--f.sp];
    }

    private T popT() {
        return (T) f.st[--f.sp];
    }

    private int popR() {
        return (Integer) f.st[--f.sp];
    }

    private void pushV(final Object v) {
        f.st[f.sp++] = v;
    }

    private T bool(final T cond) {
        return tf.ite(cond, tf.I1, tf.I0);
    }

    /** A checked, concrete index into the array. */
    int index(final HObj a, final T i) {
        if (i.isConst() && a.lenTerm == null) {
            if (i.v < 0 || i.v >= a.len) {
                throw vmThrow("java/lang/ArrayIndexOutOfBoundsException", null);
            }
            return (int) i.v;
        }
        if (!decide(tf.and(tf.cmp(T.SLE, tf.I0, i), tf.cmp(T.SLT, i, len(a))))) {
            throw vmThrow("java/lang/ArrayIndexOutOfBoundsException", null);
        }
        return (int) concrete(i);
    }

    private void within(final HObj a, final T i) {
        if (!decide(tf.and(tf.cmp(T.SLE, tf.I0, i), tf.cmp(T.SLT, i, len(a))))) {
            throw vmThrow("java/lang/ArrayIndexOutOfBoundsException", null);
        }
    }

    /** What an array kept sparsely holds at an index. */
    private Object find(final HObj a, final T i, final boolean refs) {
        Object v = a.dflt;
        if (refs) {
            for (int n = a.log == null ? -1 : a.log.size() - 1; n >= 0; n--) {
                if (decide(tf.eq(i, (T) a.log.get(n)[0]))) {
                    return a.log.get(n)[1];
                }
            }
        }
        for (Map.Entry<Integer, Object> e : new java.util.TreeMap<>(a.sparse).entrySet()) {
            final T same = tf.eq(i, tf.i32(e.getKey()));
            if (!refs) {
                v = tf.ite(same, (T) e.getValue(), (T) v);
            } else if (decide(same)) {
                return e.getValue();
            }
        }
        if (!refs && a.log != null) {
            for (Object[] e : a.log) {
                v = tf.ite(tf.eq(i, (T) e[0]), (T) e[1], (T) v);
            }
        }
        return v;
    }

    private void branch(final T cond, final int target) {
        f.pc = decide(cond) ? target : f.pc + 1;
    }

    private void exec() {
        final int pc = f.pc;
        final Code code = f.code;
        final int op = code.op[pc];
        switch (op) {
            case Opcodes.NOP:
                break;
            case Opcodes.ACONST_NULL:
                pushV(NULL);
                break;
            case Opcodes.ICONST_M1: case Opcodes.ICONST_0: case Opcodes.ICONST_1: case Opcodes.ICONST_2:
            case Opcodes.ICONST_3: case Opcodes.ICONST_4: case Opcodes.ICONST_5:
                pushV(tf.i32(op - Opcodes.ICONST_0));
                break;
            case Opcodes.LCONST_0: case Opcodes.LCONST_1:
                pushV(tf.i64(op - Opcodes.LCONST_0));
                break;
            case Opcodes.FCONST_0: case Opcodes.FCONST_1: case Opcodes.FCONST_2:
                pushV(tf.i32(Float.floatToRawIntBits(op - Opcodes.FCONST_0)));
                break;
            case Opcodes.DCONST_0: case Opcodes.DCONST_1:
                pushV(tf.i64(Double.doubleToRawLongBits(op - Opcodes.DCONST_0)));
                break;
            case Opcodes.BIPUSH: case Opcodes.SIPUSH:
                pushV(tf.i32(code.a[pc]));
                break;
            case Opcodes.LDC:
                pushV(constant(code.o[pc]));
                break;
            case Opcodes.ILOAD: case Opcodes.LLOAD: case Opcodes.FLOAD: case Opcodes.DLOAD: case Opcodes.ALOAD:
                pushV(f.loc[code.a[pc]]);
                break;
            case Opcodes.ISTORE: case Opcodes.LSTORE: case Opcodes.FSTORE: case Opcodes.DSTORE: case Opcodes.ASTORE:
                f.loc[code.a[pc]] = pop();
                break;
            case Opcodes.IALOAD: case Opcodes.LALOAD: case Opcodes.FALOAD: case Opcodes.DALOAD: case Opcodes.AALOAD:
            case Opcodes.BALOAD: case Opcodes.CALOAD: case Opcodes.SALOAD: {
                final T i = popT();
                final int r = popR();
                if (r == 0) {
                    throw npe();
                }
                final HObj a = s.get(r);
                if (!i.isConst() && a.f != null && a.len <= natives.iteArrays && op != Opcodes.AALOAD && a.len > 0) {
                    if (!decide(tf.and(tf.cmp(T.SLE, tf.I0, i), tf.cmp(T.SLT, i, len(a))))) {
                        throw vmThrow("java/lang/ArrayIndexOutOfBoundsException", null);
                    }
                    T v = (T) a.f[a.len - 1];
                    for (int k = a.len - 2; k >= 0; k--) {
                        v = tf.ite(tf.eq(i, tf.i32(k)), (T) a.f[k], v);
                    }
                    pushV(v);
                    break;
                }
                if (a.f == null && (!i.isConst() || a.log != null) && a.sparse.size() <= 64) {
                    within(a, i);
                    pushV(find(a, i, op == Opcodes.AALOAD));
                    break;
                }
                pushV(a.elem(index(a, i)));
                break;
            }
            case Opcodes.IASTORE: case Opcodes.LASTORE: case Opcodes.FASTORE: case Opcodes.DASTORE: case Opcodes.AASTORE:
            case Opcodes.BASTORE: case Opcodes.CASTORE: case Opcodes.SASTORE: {
                Object v = pop();
                final T i = popT();
                final int r = popR();
                if (r == 0) {
                    throw npe();
                }
                final HObj a = s.get(r);
                final boolean logged = a.f == null && (!i.isConst() || a.log != null);
                if (logged) {
                    within(a, i);
                }
                final int k = logged ? -1 : index(a, i);
                if (op == Opcodes.BASTORE) {
                    v = a.cls.kind == 'Z' ? tf.bin(T.AND, (T) v, tf.I1) : tf.sx(8, (T) v);
                } else if (op == Opcodes.CASTORE) {
                    v = tf.bin(T.AND, (T) v, tf.i32(0xffff));
                } else if (op == Opcodes.SASTORE) {
                    v = tf.sx(16, (T) v);
                } else if (op == Opcodes.AASTORE && (Integer) v != 0 && !s.get((Integer) v).cls.isSubOf(a.cls.elem)) {
                    throw vmThrow("java/lang/ArrayStoreException", null);
                }
                if (logged) {
                    final HObj w = s.mut(r);
                    if (w.log == null) {
                        w.log = new java.util.ArrayList<>();
                    }
                    w.log.add(new Object[] {i, v});
                } else if (a.elem(k) != v) {
                    s.mut(r).setElem(k, v);
                }
                break;
            }
            case Opcodes.POP:
                f.sp--;
                break;
            case Opcodes.POP2:
                f.sp -= wide(f.st[f.sp - 1]) ? 1 : 2;
                break;
            case Opcodes.DUP:
                f.st[f.sp] = f.st[f.sp - 1];
                f.sp++;
                break;
            case Opcodes.DUP_X1: {
                final Object a = pop();
                final Object b = pop();
                pushV(a);
                pushV(b);
                pushV(a);
                break;
            }
            case Opcodes.DUP_X2: {
                final Object a = pop();
                final Object b = pop();
                if (wide(b)) {
                    pushV(a);
                    pushV(b);
                    pushV(a);
                } else {
                    final Object c = pop();
                    pushV(a);
                    pushV(c);
                    pushV(b);
                    pushV(a);
                }
                break;
            }
            case Opcodes.DUP2: {
                final Object a = pop();
                if (wide(a)) {
                    pushV(a);
                    pushV(a);
                } else {
                    final Object b = pop();
                    pushV(b);
                    pushV(a);
                    pushV(b);
                    pushV(a);
                }
                break;
            }
            case Opcodes.DUP2_X1: {
                final Object a = pop();
                final Object b = pop();
                if (wide(a)) {
                    pushV(a);
                    pushV(b);
                    pushV(a);
                } else {
                    final Object c = pop();
                    pushV(b);
                    pushV(a);
                    pushV(c);
                    pushV(b);
                    pushV(a);
                }
                break;
            }
            case Opcodes.DUP2_X2: {
                final Object a = pop();
                final Object b = pop();
                if (wide(a)) {
                    if (wide(b)) {
                        pushV(a);
                        pushV(b);
                        pushV(a);
                    } else {
                        final Object c = pop();
                        pushV(a);
                        pushV(c);
                        pushV(b);
                        pushV(a);
                    }
                } else {
                    final Object c = pop();
                    if (wide(c)) {
                        pushV(b);
                        pushV(a);
                        pushV(c);
                        pushV(b);
                        pushV(a);
                    } else {
                        final Object d = pop();
                        pushV(b);
                        pushV(a);
                        pushV(d);
                        pushV(c);
                        pushV(b);
                        pushV(a);
                    }
                }
                break;
            }
            case Opcodes.SWAP: {
                final Object a = pop();
                final Object b = pop();
                pushV(a);
                pushV(b);
                break;
            }
            case Opcodes.IADD: case Opcodes.LADD:
                bin(T.ADD);
                break;
            case Opcodes.ISUB: case Opcodes.LSUB:
                bin(T.SUB);
                break;
            case Opcodes.IMUL: case Opcodes.LMUL:
                bin(T.MUL);
                break;
            case Opcodes.IDIV: case Opcodes.LDIV: case Opcodes.IREM: case Opcodes.LREM: {
                final T b = popT();
                final T a = popT();
                if (decide(tf.eq(b, tf.c(b.w, 0)))) {
                    throw vmThrow("java/lang/ArithmeticException", null);
                }
                pushV(tf.bin(op == Opcodes.IDIV || op == Opcodes.LDIV ? T.SDIV : T.SREM, a, b));
                break;
            }
            case Opcodes.IAND: case Opcodes.LAND:
                bin(T.AND);
                break;
            case Opcodes.IOR: case Opcodes.LOR:
                bin(T.OR);
                break;
            case Opcodes.IXOR: case Opcodes.LXOR:
                bin(T.XOR);
                break;
            case Opcodes.ISHL: case Opcodes.LSHL:
                bin(T.SHL);
                break;
            case Opcodes.ISHR: case Opcodes.LSHR:
                bin(T.ASHR);
                break;
            case Opcodes.IUSHR: case Opcodes.LUSHR:
                bin(T.LSHR);
                break;
            case Opcodes.FADD: case Opcodes.DADD:
                fbin(T.FADD);
                break;
            case Opcodes.FSUB: case Opcodes.DSUB:
                fbin(T.FSUB);
                break;
            case Opcodes.FMUL: case Opcodes.DMUL:
                fbin(T.FMUL);
                break;
            case Opcodes.FDIV: case Opcodes.DDIV:
                fbin(T.FDIV);
                break;
            case Opcodes.FREM: case Opcodes.DREM: {
                final T b = popT();
                final T a = popT();
                if (!a.isConst() || !b.isConst()) {
                    throw new Unsupported("floating point remainder");
                }
                pushV(op == Opcodes.FREM
                        ? tf.i32(Float.floatToIntBits(Float.intBitsToFloat((int) a.v) % Float.intBitsToFloat((int) b.v)))
                        : tf.i64(Double.doubleToLongBits(Double.longBitsToDouble(a.v) % Double.longBitsToDouble(b.v))));
                break;
            }
            case Opcodes.INEG: case Opcodes.LNEG: {
                final T a = popT();
                pushV(tf.bin(T.SUB, tf.c(a.w, 0), a));
                break;
            }
            case Opcodes.FNEG:
                pushV(tf.bin(T.XOR, popT(), tf.i32(Integer.MIN_VALUE)));
                break;
            case Opcodes.DNEG:
                pushV(tf.bin(T.XOR, popT(), tf.i64(Long.MIN_VALUE)));
                break;
            case Opcodes.IINC:
                f.loc[code.a[pc]] = tf.bin(T.ADD, (T) f.loc[code.a[pc]], tf.i32(code.b[pc]));
                break;
            case Opcodes.I2L:
                pushV(tf.i2l(popT()));
                break;
            case Opcodes.L2I:
                pushV(tf.l2i(popT()));
                break;
            case Opcodes.I2F:
                pushV(tf.conv(T.I2F, popT()));
                break;
            case Opcodes.I2D:
                pushV(tf.conv(T.I2D, popT()));
                break;
            case Opcodes.L2F:
                pushV(tf.conv(T.L2F, popT()));
                break;
            case Opcodes.L2D:
                pushV(tf.conv(T.L2D, popT()));
                break;
            case Opcodes.F2I:
                pushV(tf.conv(T.F2I, popT()));
                break;
            case Opcodes.F2L:
                pushV(tf.conv(T.F2L, popT()));
                break;
            case Opcodes.D2I:
                pushV(tf.conv(T.D2I, popT()));
                break;
            case Opcodes.D2L:
                pushV(tf.conv(T.D2L, popT()));
                break;
            case Opcodes.F2D:
                pushV(tf.conv(T.F2D, popT()));
                break;
            case Opcodes.D2F:
                pushV(tf.conv(T.D2F, popT()));
                break;
            case Opcodes.I2B:
                pushV(tf.sx(8, popT()));
                break;
            case Opcodes.I2C:
                pushV(tf.bin(T.AND, popT(), tf.i32(0xffff)));
                break;
            case Opcodes.I2S:
                pushV(tf.sx(16, popT()));
                break;
            case Opcodes.LCMP: {
                final T b = popT();
                final T a = popT();
                pushV(tf.ite(tf.cmp(T.SLT, a, b), tf.i32(-1), tf.ite(tf.eq(a, b), tf.I0, tf.I1)));
                break;
            }
            case Opcodes.FCMPL: case Opcodes.DCMPL: {
                final T b = popT();
                final T a = popT();
                pushV(tf.ite(tf.fcmp(T.FLT, b, a), tf.I1, tf.ite(tf.fcmp(T.FEQ, a, b), tf.I0, tf.i32(-1))));
                break;
            }
            case Opcodes.FCMPG: case Opcodes.DCMPG: {
                final T b = popT();
                final T a = popT();
                pushV(tf.ite(tf.fcmp(T.FLT, a, b), tf.i32(-1), tf.ite(tf.fcmp(T.FEQ, a, b), tf.I0, tf.I1)));
                break;
            }
            case Opcodes.IFEQ:
                branch(tf.eq(popT(), tf.I0), code.a[pc]);
                return;
            case Opcodes.IFNE:
                branch(tf.not(tf.eq(popT(), tf.I0)), code.a[pc]);
                return;
            case Opcodes.IFLT:
                branch(tf.cmp(T.SLT, popT(), tf.I0), code.a[pc]);
                return;
            case Opcodes.IFGE:
                branch(tf.cmp(T.SLE, tf.I0, popT()), code.a[pc]);
                return;
            case Opcodes.IFGT:
                branch(tf.cmp(T.SLT, tf.I0, popT()), code.a[pc]);
                return;
            case Opcodes.IFLE:
                branch(tf.cmp(T.SLE, popT(), tf.I0), code.a[pc]);
                return;
            case Opcodes.IF_ICMPEQ: case Opcodes.IF_ICMPNE: case Opcodes.IF_ICMPLT: case Opcodes.IF_ICMPGE:
            case Opcodes.IF_ICMPGT: case Opcodes.IF_ICMPLE: {
                final T b = popT();
                final T a = popT();
                final T c = switch (op) {
                    case Opcodes.IF_ICMPEQ -> tf.eq(a, b);
                    case Opcodes.IF_ICMPNE -> tf.not(tf.eq(a, b));
                    case Opcodes.IF_ICMPLT -> tf.cmp(T.SLT, a, b);
                    case Opcodes.IF_ICMPGE -> tf.cmp(T.SLE, b, a);
                    case Opcodes.IF_ICMPGT -> tf.cmp(T.SLT, b, a);
                    default -> tf.cmp(T.SLE, a, b);
                };
                branch(c, code.a[pc]);
                return;
            }
            case Opcodes.IF_ACMPEQ: case Opcodes.IF_ACMPNE: {
                final int b = popR();
                final int a = popR();
                f.pc = (a == b) == (op == Opcodes.IF_ACMPEQ) ? code.a[pc] : pc + 1;
                return;
            }
            case Opcodes.IFNULL: case Opcodes.IFNONNULL:
                f.pc = (popR() == 0) == (op == Opcodes.IFNULL) ? code.a[pc] : pc + 1;
                return;
            case Opcodes.GOTO:
                f.pc = code.a[pc];
                return;
            case Opcodes.TABLESWITCH: case Opcodes.LOOKUPSWITCH: {
                final T k = popT();
                final ClassRepo.Switch sw = (ClassRepo.Switch) code.o[pc];
                for (int i = 0; i < sw.keys.length; i++) {
                    if (decide(tf.eq(k, tf.i32(sw.keys[i])))) {
                        f.pc = sw.targets[i];
                        return;
                    }
                }
                f.pc = sw.dflt;
                return;
            }
            case Opcodes.IRETURN: case Opcodes.LRETURN: case Opcodes.FRETURN: case Opcodes.DRETURN: case Opcodes.ARETURN:
            case Opcodes.RETURN:
                ret(op == Opcodes.RETURN ? null : pop());
                return;
            case Opcodes.GETSTATIC: case Opcodes.PUTSTATIC: case Opcodes.GETFIELD: case Opcodes.PUTFIELD:
                field(op, pc);
                break;
            case Opcodes.INVOKEVIRTUAL: case Opcodes.INVOKESPECIAL: case Opcodes.INVOKESTATIC: case Opcodes.INVOKEINTERFACE:
                call(op, pc);
                return;
            case Opcodes.INVOKEDYNAMIC:
                indy(pc);
                break;
            case Opcodes.NEW: {
                final ClassInfo c = cls(pc);
                init(c);
                pushV(newObject(c));
                break;
            }
            case Opcodes.NEWARRAY: {
                final T n = popT();
                pushV(newArray(repo.get("[" + " ZCFDBSIJ".charAt(code.a[pc] - 3)), n));
                break;
            }
            case Opcodes.ANEWARRAY: {
                final T n = popT();
                pushV(newArray(repo.arrayOf(cls(pc)), n));
                break;
            }
            case Opcodes.MULTIANEWARRAY: {
                final int d = code.a[pc];
                final int[] dims = new int[d];
                for (int i = 0; i < d; i++) {
                    dims[i] = (int) concrete((T) f.st[f.sp - d + i]);
                    if (dims[i] < 0) {
                        throw vmThrow("java/lang/NegativeArraySizeException", null);
                    }
                }
                f.sp -= d;
                pushV(multi(cls(pc), dims, 0));
                break;
            }
            case Opcodes.ARRAYLENGTH: {
                final int r = popR();
                if (r == 0) {
                    throw npe();
                }
                pushV(len(s.get(r)));
                break;
            }
            case Opcodes.ATHROW: {
                final int r = popR();
                if (r == 0) {
                    throw npe();
                }
                throw new JavaThrow(r);
            }
            case Opcodes.CHECKCAST: {
                final int r = (Integer) f.st[f.sp - 1];
                if (r != 0 && !s.get(r).cls.isSubOf(cls(pc))) {
                    throw vmThrow("java/lang/ClassCastException", null);
                }
                break;
            }
            case Opcodes.INSTANCEOF: {
                final int r = popR();
                pushV(tf.i32(r != 0 && s.get(r).cls.isSubOf(cls(pc)) ? 1 : 0));
                break;
            }
            case Opcodes.MONITORENTER: {
                maybePreempt(f.m.owner);
                final int r = popR();
                if (r == 0) {
                    throw npe();
                }
                if (!enter(r, f.m.owner)) {
                    return;
                }
                break;
            }
            case Opcodes.MONITOREXIT: {
                final int r = popR();
                exit(r);
                break;
            }
            default:
                throw new Unsupported("opcode " + op);
        }
        f.pc++;
    }

    private int multi(final ClassInfo c, final int[] dims, final int d) {
        final int r = newArray(c, tf.i32(dims[d]));
        if (d + 1 < dims.length) {
            if (s.get(r).f == null) {
                throw new Unsupported("array of " + dims[d] + " arrays");
            }
            for (int i = 0; i < dims[d]; i++) {
                s.get(r).f[i] = multi(c.elem, dims, d + 1);
            }
        }
        return r;
    }

    private static boolean wide(final Object o) {
        return o instanceof T && ((T) o).w == 64;
    }

    private void bin(final int op) {
        final T b = popT();
        final T a = popT();
        pushV(tf.bin(op, a, b));
    }

    private void fbin(final int op) {
        final T b = popT();
        final T a = popT();
        pushV(tf.fbin(op, a, b));
    }

    private ClassInfo cls(final int pc) {
        final Object o = f.code.o[pc];
        if (o instanceof ClassInfo) {
            return (ClassInfo) o;
        }
        final ClassInfo c = repo.get((String) o);
        f.code.o[pc] = c;
        return c;
    }

    private void field(final int op, final int pc) {
        FieldInfo fi;
        if (f.code.o[pc] instanceof FieldInfo) {
            fi = (FieldInfo) f.code.o[pc];
        } else {
            final FieldInsnNode n = (FieldInsnNode) f.code.o[pc];
            fi = repo.get(n.owner).findField(n.name);
            if (fi == null) {
                throw new Unsupported("no field " + n.owner + "." + n.name);
            }
            f.code.o[pc] = fi;
        }
        if (s.threads.length > 1 && shared(fi.owner)) {
            if (!fi.isFinal) {
                maybePreempt(f.m.owner);
            }
            event(f.m.owner);
        }
        switch (op) {
            case Opcodes.GETSTATIC:
                init(fi.owner);
                pushV(s.get(fi.owner.staticRef).f[fi.slot]);
                break;
            case Opcodes.PUTSTATIC:
                init(fi.owner);
                s.mut(fi.owner.staticRef).f[fi.slot] = pop();
                break;
            case Opcodes.GETFIELD: {
                final int r = popR();
                if (r == 0) {
                    throw npe();
                }
                final HObj o = s.get(r);
                if (o.payload == OPAQUE) {
                    throw new Unsupported("the characters of a message are used");
                }
                pushV(o.f[fi.slot]);
                break;
            }
            default: {
                final Object v = pop();
                final int r = popR();
                if (r == 0) {
                    throw npe();
                }
                if (s.get(r).f[fi.slot] != v) {
                    s.mut(r).f[fi.slot] = v;
                }
            }
        }
    }

    /** A resolved call site. */
    private static final class Call {
        MethodInfo m;
        String key;
        int nargs;
        boolean hasThis;
        boolean virtual;
        boolean concurrent;
        ClassInfo lastCls;
        MethodInfo lastM;
    }

    private void call(final int op, final int pc) {
        final Call c;
        if (f.code.o[pc] instanceof Call) {
            c = (Call) f.code.o[pc];
        } else {
            final MethodInsnNode n = (MethodInsnNode) f.code.o[pc];
            c = new Call();
            c.key = n.name + n.desc;
            final ClassInfo oc = repo.get(n.owner);
            c.m = oc.isArray() ? repo.get("java/lang/Object").findMethod(c.key) : oc.findMethod(c.key);
            if (oc.isArray() && n.name.equals("clone")) {
                c.m = repo.get("java/lang/Object").findMethod("clone()Ljava/lang/Object;");
                c.key = c.m.key;
            }
            boolean reading = false;
            if (c.m == null && n.owner.equals("java/lang/invoke/VarHandle")) {
                reading = n.name.equals("get");
                c.m = reading ? repo.get("sx/Lib").findMethod("read" + Type.getReturnType(n.desc).getDescriptor()
                        + "(Lsx/Lib$View;" + n.desc.substring(1)) : repo.get("sx/Lib$View").findMethod(c.key);
            }
            if (c.m == null) {
                throw new Unsupported("no method " + n.owner + "." + c.key);
            }
            c.hasThis = op != Opcodes.INVOKESTATIC && !reading;
            c.virtual = op == Opcodes.INVOKEVIRTUAL && !reading || op == Opcodes.INVOKEINTERFACE;
            c.nargs = c.m.params.length + (c.hasThis ? 1 : 0);
            c.concurrent = n.owner.startsWith("java/util/concurrent/") && !n.name.equals("<init>");
            f.code.o[pc] = c;
        }
        if (s.threads.length > 1 && c.concurrent) {
            maybePreempt(f.m.owner);
            if (!c.m.name.equals("lock")) {
                event(f.m.owner);
            }
        }
        final Object[] args = new Object[c.nargs];
        for (int i = c.nargs - 1; i >= 0; i--) {
            args[i] = pop();
        }
        MethodInfo m = c.m;
        if (c.hasThis) {
            final int r = (Integer) args[0];
            if (r == 0) {
                throw npe();
            }
            if (c.virtual && !m.name.equals("<init>") && (m.access & Opcodes.ACC_PRIVATE) == 0) {
                final ClassInfo rc = s.get(r).cls;
                if (rc == c.lastCls) {
                    m = c.lastM;
                } else {
                    final MethodInfo t = rc.isArray() ? repo.get("java/lang/Object").findMethod(c.key) : rc.findMethod(c.key);
                    if (t != null) {
                        m = t;
                    }
                    c.lastCls = rc;
                    c.lastM = m;
                }
                if (m.isAbstract() && rc.lambda != null) {
                    callLambda(rc, s.get(r), args, m);
                    return;
                }
            }
        } else {
            init(m.owner);
        }
        invoke(m, args, null);
    }

    private void callLambda(final ClassInfo rc, final HObj lo, final Object[] args, final MethodInfo sam) {
        final ClassInfo.Lambda l = rc.lambda;
        final ClassInfo oc = repo.get(l.owner);
        final boolean ctor = l.tag == Opcodes.H_NEWINVOKESPECIAL;
        MethodInfo m = oc.findMethod(l.implName + l.implDesc);
        if (m == null) {
            throw new Unsupported("lambda target " + l.owner + "." + l.implName);
        }
        final boolean st = l.tag == Opcodes.H_INVOKESTATIC;
        if (st || ctor) {
            init(oc);
        }
        final int total = l.captured + args.length - 1;
        final Object[] all = new Object[total + (ctor ? 1 : 0)];
        int k = 0;
        if (ctor) {
            all[k++] = newObject(oc);
        }
        final Type[] inst = Type.getArgumentTypes(l.instantiated);
        for (int i = 0; i < total; i++) {
            Object v = i < l.captured ? lo.f[i] : args[1 + i - l.captured];
            final int p = i - (st || ctor ? 0 : 1); // which parameter of the target
            if (i >= l.captured) {
                final int j = i - l.captured;
                final String from = sam.paramDescs[j];
                final String to = p < 0 ? "Ljava/lang/Object;" : m.paramDescs[p];
                final String via = inst[j].getDescriptor();
                final boolean samPrim = from.charAt(0) != 'L' && from.charAt(0) != '[';
                v = convert(v, from, samPrim ? to : to.charAt(0) != 'L' && to.charAt(0) != '[' ? to : via);
            }
            all[k++] = v;
        }
        if (!st && !ctor) {
            final int r = (Integer) all[0];
            if (r == 0) {
                throw npe();
            }
            if (l.tag == Opcodes.H_INVOKEVIRTUAL || l.tag == Opcodes.H_INVOKEINTERFACE) {
                final ClassInfo tc = s.get(r).cls;
                final MethodInfo t = tc.isArray() ? repo.get("java/lang/Object").findMethod(l.implName + l.implDesc)
                        : tc.findMethod(l.implName + l.implDesc);
                if (t != null && (m.access & Opcodes.ACC_PRIVATE) == 0) {
                    m = t;
                }
                if (m.isAbstract() && tc.lambda != null) {
                    callLambda(tc, s.get(r), all, m);
                    return;
                }
            }
        }
        if (ctor) {
            // leave the new object as the result: push it first, then run the constructor
            if (m.nat == null) {
                invoke(m, all, "V>V");
                final Frame n = s.thr().top();
                n.initOf = all[0];
                return;
            }
            throw new Unsupported("constructor reference to " + m);
        }
        final String from = m.retDesc;
        final String to = sam.retDesc;
        invoke(m, all, from.equals(to) ? null : from + ">" + to);
    }

    private void ret(final Object v) {
        final Frame fr = f;
        Object r = v;
        final Thr t = s.thr();
        if (fr.locked != 0) {
            exit(fr.locked);
        }
        t.frames[--t.n] = null;
        if (t.n == 0) {
            if (s.cur == 0 || initDepth > 0) {
                t.done = true;
                outcome = DONE;
            }
            return;
        }
        if (fr.initOf != null) {
            final Frame caller = t.top();
            caller.st[caller.sp++] = fr.initOf;
            caller.pc++;
            return;
        }
        finishCall(r, fr.m.ret, fr.adapt);
    }

    private void indy(final int pc) {
        if (f.code.o[pc] instanceof ClassInfo) {
            final ClassInfo c = (ClassInfo) f.code.o[pc];
            makeLambda(c);
            return;
        }
        final InvokeDynamicInsnNode n = (InvokeDynamicInsnNode) f.code.o[pc];
        final String boot = n.bsm.getOwner() + "." + n.bsm.getName();
        final int nargs = Type.getArgumentTypes(n.desc).length;
        if (boot.equals("java/lang/invoke/LambdaMetafactory.metafactory")
                || boot.equals("java/lang/invoke/LambdaMetafactory.altMetafactory")) {
            final Handle h = (Handle) n.bsmArgs[1];
            final ClassInfo.Lambda l = new ClassInfo.Lambda();
            l.samName = n.name;
            l.samDesc = ((Type) n.bsmArgs[0]).getDescriptor();
            l.tag = h.getTag();
            l.owner = h.getOwner();
            l.implName = h.getName();
            l.implDesc = h.getDesc();
            l.implItf = h.isInterface();
            l.instantiated = ((Type) n.bsmArgs[2]).getDescriptor();
            l.captured = nargs;
            final ClassInfo itf = repo.get(Type.getReturnType(n.desc).getInternalName());
            final ClassInfo c = repo.synthetic(f.m.owner.name + "$$Lambda" + ++lambdaCount, itf, l);
            if (boot.endsWith("altMetafactory")) {
                final int flags = (Integer) n.bsmArgs[3];
                if ((flags & 1) != 0) {
                    c.interfaces.add(repo.get("java/io/Serializable"));
                }
                if ((flags & 2) != 0) {
                    for (int i = 0; i < (Integer) n.bsmArgs[4]; i++) {
                        c.interfaces.add(repo.get(((Type) n.bsmArgs[5 + i]).getInternalName()));
                    }
                }
            }
            f.code.o[pc] = c;
            makeLambda(c);
        } else if (boot.equals("java/lang/invoke/StringConcatFactory.makeConcatWithConstants")) {
            final Type[] ts = Type.getArgumentTypes(n.desc);
            final Object[] args = new Object[nargs];
            for (int i = nargs - 1; i >= 0; i--) {
                args[i] = pop();
            }
            pushV(natives.concat((String) n.bsmArgs[0], n.bsmArgs, ts, args));
        } else {
            throw new Unsupported("invokedynamic " + boot);
        }
    }

    boolean initialising() {
        return initDepth > 0;
    }

    private void makeLambda(final ClassInfo c) {
        final Object[] cap = new Object[c.lambda.captured];
        for (int i = cap.length - 1; i >= 0; i--) {
            cap[i] = pop();
        }
        pushV(s.alloc(new HObj(c, cap, s.owner)));
    }
}
