package sx;

import java.util.Arrays;
import java.util.HashMap;
import java.util.Map;

/** An object, an array, or the static fields of a class. */
final class HObj {
    final ClassInfo cls;
    Object[] f; // field values or elements; null for an array kept sparsely
    int len = -1; // arrays
    T lenTerm; // arrays of symbolic length
    HashMap<Integer, Object> sparse;
    java.util.ArrayList<Object[]> log; // later writes at symbolic indexes to an array kept sparsely: index, value
    Object dflt;
    Object payload; // strings known to the engine, class objects
    Object owner;

    HObj(final ClassInfo cls, final Object[] f, final Object owner) {
        this.cls = cls;
        this.f = f;
        this.owner = owner;
    }

    HObj copy(final Object newOwner) {
        final HObj o = new HObj(cls, f == null ? null : f.clone(), newOwner);
        o.len = len;
        o.lenTerm = lenTerm;
        o.sparse = sparse == null ? null : new HashMap<>(sparse);
        o.log = log == null ? null : new java.util.ArrayList<>(log);
        o.dflt = dflt;
        o.payload = payload;
        return o;
    }

    boolean isArray() {
        return len >= 0 || lenTerm != null;
    }

    Object elem(final int i) {
        if (f != null) {
            return f[i];
        }
        final Object v = sparse.get(i);
        return v == null ? dflt : v;
    }

    void setElem(final int i, final Object v) {
        if (f != null) {
            f[i] = v;
        } else if (v.equals(dflt)) {
            sparse.remove(i);
        } else {
            sparse.put(i, v);
        }
    }
}

final class Frame {
    MethodInfo m;
    Code code;
    int pc;
    Object[] loc;
    Object[] st;
    int sp;
    String adapt; // how the caller wants the result converted: source and target descriptor, or null
    boolean dropResult;
    int locked; // monitor to release on return
    Object initOf;

    Frame copy() {
        final Frame n = new Frame();
        n.m = m;
        n.code = code;
        n.pc = pc;
        n.loc = loc.clone();
        n.st = st.clone();
        n.sp = sp;
        n.adapt = adapt;
        n.dropResult = dropResult;
        n.locked = locked;
        n.initOf = initOf;
        return n;
    }
}

final class Thr {
    Frame[] frames = new Frame[8];
    int n;
    int waitFor; // monitor the thread wants
    int joinOn = -1;
    boolean done;
    boolean starts; // before its first instruction

    Thr copy() {
        final Thr t = new Thr();
        t.frames = new Frame[frames.length];
        for (int i = 0; i < n; i++) {
            t.frames[i] = frames[i].copy();
        }
        t.n = n;
        t.waitFor = waitFor;
        t.joinOn = joinOn;
        t.done = done;
        t.starts = starts;
        return t;
    }

    Frame top() {
        return frames[n - 1];
    }

    void push(final Frame f) {
        if (n == frames.length) {
            frames = Arrays.copyOf(frames, n * 2);
        }
        frames[n++] = f;
    }
}

/** One recorded input, observation or scheduling decision; newest first. */
final class Rec {
    final char kind;
    final T term;
    final long value;
    final Rec prev;
    final int n;

    Rec(final char kind, final T term, final long value, final Rec prev) {
        this.kind = kind;
        this.term = term;
        this.value = value;
        this.prev = prev;
        this.n = prev == null ? 1 : prev.n + 1;
    }
}

final class State {
    static final int BASE = 1 << 24;
    private static final int PS = 32;

    Object owner = new Object();
    private HObj[][] pages = new HObj[8][];
    private Object[] pageOwner = new Object[8];
    int next = BASE;
    HashMap<Integer, HObj> over = new HashMap<>();
    private boolean overShared;
    final HeapBase base;

    Thr[] threads = {new Thr()};
    int cur;
    HashMap<Integer, int[]> monitors = new HashMap<>();
    int preemptions;
    boolean scheduled;

    T[] pc = new T[32];
    int pcN;
    Map<T, Long> model = new HashMap<>();
    Rec inputs;
    Rec observed;
    Rec schedule;
    int vars;
    int cuts;
    long steps;
    int depth;
    boolean dead;
    int forced = -1;
    int thrown;
    int points;
    long cells; // elements of all arrays made so far

    State(final HeapBase base) {
        this.base = base;
    }

    State copy() {
        final State s = new State(base);
        owner = new Object(); // both sides now share what they have
        s.pages = pages.clone();
        s.pageOwner = pageOwner.clone();
        s.next = next;
        s.over = over;
        overShared = true;
        s.overShared = true;
        s.threads = new Thr[threads.length];
        for (int i = 0; i < threads.length; i++) {
            s.threads[i] = threads[i].copy();
        }
        s.cur = cur;
        if (!monitors.isEmpty()) {
            for (Map.Entry<Integer, int[]> e : monitors.entrySet()) {
                s.monitors.put(e.getKey(), e.getValue().clone());
            }
        }
        s.preemptions = preemptions;
        s.scheduled = scheduled;
        s.pc = pc.clone();
        s.pcN = pcN;
        s.model = model;
        s.inputs = inputs;
        s.observed = observed;
        s.schedule = schedule;
        s.vars = vars;
        s.cuts = cuts;
        s.steps = steps;
        s.depth = depth;
        s.forced = forced;
        s.cells = cells;
        s.points = points;
        return s;
    }

    Thr thr() {
        return threads[cur];
    }

    HObj get(final int id) {
        if (id >= BASE) {
            final int i = id - BASE;
            return pages[i / PS][i % PS];
        }
        if (!over.isEmpty()) {
            final HObj o = over.get(id);
            if (o != null) {
                return o;
            }
        }
        return base.get(id);
    }

    /** The object, private to this state, for writing. */
    HObj mut(final int id) {
        if (id >= BASE) {
            final int i = id - BASE;
            HObj[] page = page(i / PS);
            HObj o = page[i % PS];
            if (o.owner != owner) {
                o = o.copy(owner);
                page[i % PS] = o;
            }
            return o;
        }
        if (base.building != null) {
            return base.get(id);
        }
        HObj o = over.get(id);
        if (o == null || o.owner != owner) {
            o = (o == null ? base.get(id) : o).copy(owner);
            if (overShared) {
                over = new HashMap<>(over);
                overShared = false;
            }
            over.put(id, o);
        }
        return o;
    }

    private HObj[] page(final int p) {
        if (pageOwner[p] != owner) {
            pages[p] = pages[p].clone();
            pageOwner[p] = owner;
        }
        return pages[p];
    }

    int alloc(final HObj o) {
        if (base.building != null) {
            return base.add(o);
        }
        final int i = next - BASE;
        final int p = i / PS;
        if (p >= pages.length) {
            pages = Arrays.copyOf(pages, p * 2);
            pageOwner = Arrays.copyOf(pageOwner, p * 2);
        }
        if (pages[p] == null) {
            pages[p] = new HObj[PS];
            pageOwner[p] = owner;
        }
        o.owner = owner;
        page(p)[i % PS] = o;
        return next++;
    }

    /** Replaces the whole private heap (garbage collection). */
    void setHeap(final HObj[] objs, final int n) {
        pages = new HObj[Math.max(8, n / PS + 2)][];
        pageOwner = new Object[pages.length];
        owner = new Object();
        next = BASE;
        for (int i = 0; i < n; i++) {
            alloc(objs[i]);
        }
    }

    void setOver(final HashMap<Integer, HObj> o) {
        over = o;
        overShared = false;
    }

    boolean overridden(final int id) {
        return over.containsKey(id);
    }

    boolean has(final T cond) {
        for (int i = pcN - 1; i >= 0; i--) {
            if (pc[i] == cond) {
                return true;
            }
        }
        return false;
    }

    void addPc(final T cond) {
        if (cond.isTrue()) {
            return;
        }
        if (cond.op == T.BAND) {
            addPc(cond.a);
            addPc(cond.b);
            return;
        }
        if (has(cond)) {
            return;
        }
        if (pcN == pc.length) {
            pc = Arrays.copyOf(pc, pcN * 2);
        }
        pc[pcN++] = cond;
    }
}

/** Objects made by class initialisers, shared by every state (a state that changes one keeps its own copy). */
final class HeapBase {
    private HObj[] objs = new HObj[4096];
    private int n = 1;
    /** the state that is running a class initialiser, if one is */
    State building;

    HObj get(final int id) {
        return objs[id];
    }

    int add(final HObj o) {
        if (n == objs.length) {
            objs = Arrays.copyOf(objs, n * 2);
        }
        objs[n] = o;
        return n++;
    }
}
