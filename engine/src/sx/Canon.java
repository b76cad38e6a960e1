package sx;

import java.util.ArrayList;
import java.util.Arrays;
import java.util.Comparator;
import java.util.HashMap;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;

/** Brings a state into a form in which states that differ only in names and addresses are equal; collects garbage. */
final class Canon {
    static final class Key {
        final long[] data;
        final int hash;

        Key(final long[] d, final int n) {
            data = Arrays.copyOf(d, n);
            hash = Arrays.hashCode(data);
        }

        @Override
        public int hashCode() {
            return hash;
        }

        @Override
        public boolean equals(final Object o) {
            return o instanceof Key && ((Key) o).hash == hash && Arrays.equals(data, ((Key) o).data);
        }
    }

    private final Interp in;
    private final State s;
    private long[] out = new long[1024];
    private int n;
    private final Map<Integer, Integer> ids = new HashMap<>();
    private final List<Integer> order = new ArrayList<>();
    private final List<Integer> bags = new ArrayList<>();
    private final IdentityHashMap<T, Integer> varNo = new IdentityHashMap<>();
    private final IdentityHashMap<T, Integer> termNo = new IdentityHashMap<>();
    Key key;
    /** the constraints on what is live, in canonical names, sorted */
    T[] constraints;
    boolean hasDead;

    Canon(final Interp in, final State s) {
        this.in = in;
        this.s = s;
        build();
    }

    private void put(final long v) {
        if (n == out.length) {
            out = Arrays.copyOf(out, n * 2);
        }
        out[n++] = v;
    }

    private void build() {
        for (Frame f : liveFrames()) {
            put(System.identityHashCode(f.m));
            put(f.pc);
            for (Object o : f.loc) {
                value(o);
            }
            for (int i = 0; i < f.sp; i++) {
                value(f.st[i]);
            }
        }
        final TreeMap<Integer, HObj> over = new TreeMap<>(s.over);
        for (Map.Entry<Integer, HObj> e : over.entrySet()) {
            put(e.getKey());
            object(e.getValue());
        }
        int done = 0;
        while (true) {
            if (done < order.size()) {
                object(s.get(order.get(done++)));
            } else if (!bags.isEmpty()) {
                bag(s.get(bags.remove(0)));
            } else {
                break;
            }
        }
        // the constraints that say something about what is live
        final IdentityHashMap<T, T> vars = new IdentityHashMap<>();
        for (T v : varNo.keySet()) {
            vars.put(v, v);
        }
        final boolean[] used = new boolean[s.pcN];
        boolean more = true;
        while (more) {
            more = false;
            for (int i = 0; i < s.pcN; i++) {
                if (!used[i]) {
                    for (T v : s.pc[i].vars()) {
                        if (vars.containsKey(v)) {
                            used[i] = true;
                            break;
                        }
                    }
                    if (used[i]) {
                        for (T v : s.pc[i].vars()) {
                            if (vars.put(v, v) == null) {
                                more = true;
                            }
                        }
                    }
                }
            }
        }
        int k = 0;
        for (int i = 0; i < s.pcN; i++) {
            if (used[i]) {
                s.pc[k++] = s.pc[i];
            }
        }
        Arrays.fill(s.pc, k, s.pcN, null);
        s.pcN = k;
        for (int i = 0; i < k; i++) {
            for (T v : s.pc[i].vars()) {
                if (!varNo.containsKey(v)) {
                    hasDead = true;
                    varNo.put(v, varNo.size());
                }
            }
        }
        final Map<T, T> rename = new HashMap<>();
        for (Map.Entry<T, Integer> e : varNo.entrySet()) {
            rename.put(e.getKey(), in.tf.var("c" + e.getValue(), e.getKey().w));
        }
        final HashMap<T, T> memo = new HashMap<>();
        constraints = new T[k];
        for (int i = 0; i < k; i++) {
            constraints[i] = in.tf.subst(s.pc[i], rename, memo);
        }
        Arrays.sort(constraints, Comparator.comparingInt(t -> t.id));
        key = new Key(out, n);
        collect();
    }

    private List<Frame> liveFrames() {
        final List<Frame> r = new ArrayList<>();
        for (Thr t : s.threads) {
            for (int i = 0; i < t.n; i++) {
                r.add(t.frames[i]);
            }
        }
        return r;
    }

    private void value(final Object o) {
        if (o == null) {
            put(-1);
        } else if (o instanceof T) {
            term((T) o);
        } else {
            final int r = (Integer) o;
            if (r == 0) {
                put(-2);
            } else if (r < State.BASE) {
                put(-3);
                put(r);
            } else {
                Integer id = ids.get(r);
                if (id == null) {
                    id = ids.size();
                    ids.put(r, id);
                    order.add(r);
                }
                put(-4);
                put(id);
            }
        }
    }

    private void term(final T t) {
        if (t.op == T.CONST) {
            put(-5);
            put(t.v);
            return;
        }
        if (t.op == T.VAR) {
            Integer k = varNo.get(t);
            if (k == null) {
                k = varNo.size();
                varNo.put(t, k);
            }
            put(-6);
            put(k);
            return;
        }
        final Integer k = termNo.get(t);
        if (k != null) {
            put(-7);
            put(k);
            return;
        }
        put(-8 - t.op);
        put(t.w);
        put(t.v);
        term(t.a);
        if (t.b != null) {
            term(t.b);
        }
        if (t.c != null) {
            term(t.c);
        }
        termNo.put(t, termNo.size());
    }

    private void object(final HObj o) {
        put(o.cls.serial);
        if (o.payload instanceof String && o.cls.name.equals("java/lang/StringBuilder")) {
            final String text = (String) o.payload;
            put(text.length());
            text.chars().forEach(this::put);
        }
        if (o.isArray()) {
            value(in.len(o));
            if (o.payload == Natives.BAG) {
                bags.add(order.isEmpty() ? -1 : idOf(o));
                return;
            }
            if (o.f != null) {
                for (Object v : o.f) {
                    value(v);
                }
            } else {
                value(o.dflt);
                for (Map.Entry<Integer, Object> e : new TreeMap<>(o.sparse).entrySet()) {
                    put(e.getKey());
                    value(e.getValue());
                }
                if (o.log != null) {
                    for (Object[] e : o.log) {
                        value(e[0]);
                        value(e[1]);
                    }
                }
            }
            return;
        }
        for (int i = 0; i < o.f.length; i++) {
            if (i < o.cls.fields.size() && o.cls.fields.get(i).ignored && !o.cls.name.startsWith("h/")) {
                continue;
            }
            if (i < o.cls.fields.size() && EXPECTED.contains(o.cls.fields.get(i).name)) {
                final T d = behind(o, o.f[i]);
                if (d != null) {
                    put(-200);
                    term(d);
                    continue;
                }
            }
            value(o.f[i]);
        }
    }

    private static final java.util.Set<String> EXPECTED = java.util.Set.of("internalModCount", "expectedModCount");

    /** How far an iterator is behind the collection it belongs to: only that matters, not the absolute counts. */
    private T behind(final HObj o, final Object expected) {
        for (int i = 0; i < o.cls.fields.size(); i++) {
            final FieldInfo f = o.cls.fields.get(i);
            if (f.name.startsWith("this$") && o.f[i] instanceof Integer && (Integer) o.f[i] >= State.BASE) {
                final HObj outer = s.get((Integer) o.f[i]);
                for (int j = 0; j < outer.cls.fields.size(); j++) {
                    if (outer.cls.fields.get(j).ignored && outer.cls.fields.get(j).name.startsWith("mod")
                            && outer.f[j] instanceof T && expected instanceof T) {
                        return in.tf.bin(T.SUB, (T) outer.f[j], (T) expected);
                    }
                }
            }
        }
        return null;
    }

    private int idOf(final HObj o) {
        for (int r : order) {
            if (s.get(r) == o) {
                return r;
            }
        }
        throw new IllegalStateException("bag");
    }

    /** The elements of a bag, in an order that does not depend on where they are in the array. */
    private void bag(final HObj o) {
        final List<Object> left = new ArrayList<>(Arrays.asList(o.f));
        while (!left.isEmpty()) {
            // the least element by what is already numbered; ties keep the array's order
            Object best = null;
            long[] bestSig = null;
            for (Object r : left) {
                final long[] sig = signature((Integer) r);
                if (bestSig == null || Arrays.compare(sig, bestSig) < 0) {
                    best = r;
                    bestSig = sig;
                }
            }
            left.remove(best);
            value(best);
            // its contents get their numbers before the next element is chosen
            final int r = (Integer) best;
            if (r >= State.BASE) {
                final HObj e = s.get(r);
                for (Object v : e.f) {
                    if (v instanceof T) {
                        for (T x : ((T) v).vars()) {
                            if (!varNo.containsKey(x)) {
                                varNo.put(x, varNo.size());
                            }
                        }
                    }
                }
            }
        }
    }

    private long[] signature(final int r) {
        if (r < State.BASE) {
            return new long[] {-1, r};
        }
        final Integer id = ids.get(r);
        final HObj e = s.get(r);
        final long[] sig = new long[1 + 2 * e.f.length];
        sig[0] = id == null ? Long.MAX_VALUE : id;
        for (int i = 0; i < e.f.length; i++) {
            final Object v = e.f[i];
            long a;
            long b = 0;
            if (v instanceof T) {
                final T t = (T) v;
                if (t.isConst()) {
                    a = 1;
                    b = t.v;
                } else {
                    a = 2;
                    final T[] vs = t.vars();
                    final Integer k = varNo.get(vs[0]);
                    b = k == null ? Long.MAX_VALUE : k;
                }
            } else if (v == null) {
                a = 3;
            } else {
                a = 4;
                final Integer k = ids.get(v);
                b = k == null ? (Integer) v < State.BASE ? (Integer) v : Long.MAX_VALUE : k;
            }
            sig[1 + 2 * i] = a;
            sig[2 + 2 * i] = b;
        }
        return sig;
    }

    /** Only what was visited is kept; references are renumbered. */
    private void collect() {
        final HObj[] objs = new HObj[order.size()];
        for (int i = 0; i < objs.length; i++) {
            final HObj o = s.get(order.get(i)).copy(null);
            renumber(o);
            objs[i] = o;
        }
        for (Frame f : liveFrames()) {
            renumber(f.loc, f.loc.length);
            for (int i = f.sp; i < f.st.length; i++) {
                f.st[i] = null;
            }
            renumber(f.st, f.sp);
            f.locked = f.locked >= State.BASE ? State.BASE + ids.get(f.locked) : f.locked;
        }
        final HashMap<Integer, HObj> over = new HashMap<>();
        for (Map.Entry<Integer, HObj> e : s.over.entrySet()) {
            final HObj o = e.getValue().copy(null);
            renumber(o);
            over.put(e.getKey(), o);
        }
        s.setHeap(objs, objs.length);
        for (HObj o : over.values()) {
            o.owner = s.owner;
        }
        s.setOver(over);
    }

    private void renumber(final HObj o) {
        if (o.f != null) {
            renumber(o.f, o.f.length);
        } else {
            for (Map.Entry<Integer, Object> e : o.sparse.entrySet()) {
                e.setValue(map(e.getValue()));
            }
            if (o.log != null) {
                o.log.replaceAll(e -> new Object[] {e[0], map(e[1])});
            }
        }
    }

    private void renumber(final Object[] a, final int len) {
        for (int i = 0; i < len; i++) {
            a[i] = map(a[i]);
        }
    }

    private Object map(final Object v) {
        if (v instanceof Integer && (Integer) v >= State.BASE) {
            final Integer id = ids.get(v);
            // only fields that are not compared can point to what was not visited
            return id == null ? Interp.NULL : (Object) (State.BASE + id);
        }
        return v;
    }
}
