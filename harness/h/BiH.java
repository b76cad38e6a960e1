package h;

import com.bytefacets.collections.bi.CompactManyToMany;
import com.bytefacets.collections.bi.CompactOneToMany;
import com.bytefacets.collections.bi.Mapping;
import com.bytefacets.collections.functional.IntIterator;
import sx.Sym;

/** One-to-many (many=0) and many-to-many (many=1) collections against a set of pairs. */
public final class BiH {
    private BiH() {}

    static final class Item {
        int l;
        int r;
        boolean present;
        int entry = -1;
        int reserved = -1; // an entry that was taken from this pair and not freed yet
        int visits;
    }

    static final class Ctx {
        CompactOneToMany one;
        CompactManyToMany many;
        boolean counts;
        Item[] pool;
        int size;
        int nextUnused;
        int[] free;
        int freeN;
    }

    public static void run() {
        final Ctx c = new Ctx();
        init(c);
        while (Sym.cut()) {
            step(c);
        }
    }

    private static void init(final Ctx c) {
        final int ls = Sym.param("lefts", 2);
        final int rs = Sym.param("rights", 2);
        c.counts = Sym.param("counts", 2) == 2 ? Sym.choose(2) == 0 : Sym.param("counts", 2) == 1;
        final int lefts = Sym.param("capL", 1);
        final int rights = Sym.param("capR", 1);
        final int pairs = Sym.param("cap", 1);
        if (Sym.param("many", 0) == 1) {
            c.many = lefts == 0 ? new CompactManyToMany() : new CompactManyToMany(lefts, rights, pairs, c.counts);
            c.one = c.many;
        } else {
            c.one = lefts == 0 ? new CompactOneToMany() : new CompactOneToMany(lefts, pairs, c.counts);
        }
        final int base = Sym.param("base", 0);
        final int[] l = new int[ls];
        final int[] r = new int[rs];
        final int to = Sym.param("to", 3);
        for (int i = 0; i < ls; i++) {
            l[i] = Sym.range(base, base + to - 1);
            for (int j = 0; j < i; j++) {
                Sym.assume(l[j] < l[i]);
            }
        }
        for (int i = 0; i < rs; i++) {
            if (c.many != null) {
                r[i] = Sym.range(base, base + to - 1);
                for (int j = 0; j < i; j++) {
                    Sym.assume(r[j] < r[i]);
                }
            } else {
                r[i] = Sym.anyInt();
                Sym.assume(r[i] >= 0);
                for (int j = 0; j < i; j++) {
                    Sym.assume(r[j] != r[i]);
                }
            }
        }
        final int n = Math.min(ls * rs, Sym.param("pairs", 4));
        c.pool = new Item[n];
        for (int i = 0; i < n; i++) {
            final Item it = new Item();
            it.l = l[i / rs];
            it.r = r[i % rs];
            c.pool[i] = it;
        }
        c.free = new int[2 * n];
        Sym.bag(c.pool);
    }

    private static void step(final Ctx c) {
        final boolean reserve = Sym.param("about", 20) == 7;
        if (Sym.param("about", 20) == 33 && Sym.choose(2) == 1) {
            visit(c);
            Sym.checkEq(c.one.size(), c.size, "size");
            return;
        }
        final int op = Sym.choose(reserve ? 7 : 6);
        if (op >= 4 && op < 6) {
            if (op == 4) {
                all(c);
            } else {
                strangers(c);
            }
            Sym.prune();
            return;
        }
        final Item it = c.pool[Sym.choose(c.pool.length)];
        switch (op) {
            case 0:
                put(c, it);
                break;
            case 1: {
                final int e = c.one.remove(it.l, it.r);
                Sym.checkEq(e, it.entry, "remove returns the entry of the pair, or -1");
                if (!it.present) {
                    Sym.prune();
                }
                c.free[c.freeN++] = it.entry;
                gone(c, it);
                break;
            }
            case 2: {
                if (!it.present) {
                    Sym.prune();
                }
                if (reserve && Sym.choose(2) == 0) {
                    if (it.reserved >= 0) {
                        Sym.prune();
                    }
                    Sym.cover("reserved");
                    c.one.removeAtAndReserve(it.entry);
                    it.reserved = it.entry;
                } else {
                    Sym.checkEq(c.one.removeAt(it.entry), it.entry, "removeAt returns the entry");
                    c.free[c.freeN++] = it.entry;
                }
                gone(c, it);
                break;
            }
            case 3:
                look(c, it);
                Sym.prune();
                break;
            default:
                if (it.reserved < 0) {
                    Sym.prune();
                }
                if (Sym.choose(2) == 0) {
                    Sym.checkEq(c.one.getLeftAt(it.reserved), it.l, "a reserved entry keeps its left key");
                    Sym.checkEq(c.one.getRightAt(it.reserved), it.r, "a reserved entry keeps its right key");
                    Sym.prune();
                }
                Sym.cover("freed");
                c.one.freeReservedEntry(it.reserved);
                c.free[c.freeN++] = it.reserved;
                it.reserved = -1;
                break;
        }
        Sym.checkEq(c.one.size(), c.size, "size");
    }

    private static void put(final Ctx c, final Item it) {
        final Mapping m = Sym.param("held", 0) == 1 ? c.one.withLeft(it.l) : null;
        final int e = c.one.put(it.l, it.r);
        if (it.present) {
            Sym.cover("put again");
            Sym.checkEq(e, it.entry, "putting a present pair returns its entry");
            return;
        }
        int expected;
        if (c.freeN > 0) {
            Sym.cover("entry reused");
            expected = c.free[--c.freeN];
            c.free[c.freeN] = 0;
        } else {
            expected = c.nextUnused++;
        }
        for (Item o : c.pool) {
            Sym.check(o.reserved != e, "a reserved entry is not handed out");
            Sym.check(o == it || o.entry != e, "no two pairs share an entry");
        }
        Sym.checkEq(e, expected, "freed entries are used again, the last one first");
        it.present = true;
        it.entry = e;
        c.size++;
        if (m != null) {
            mapping(c, it.l, true, Sym.choose(4), m);
        }
    }

    private static void gone(final Ctx c, final Item it) {
        it.present = false;
        it.entry = -1;
        c.size--;
    }

    private static void look(final Ctx c, final Item it) {
        Sym.checkEq(c.one.contains(it.l, it.r), it.present, "contains");
        Sym.checkEq(c.one.lookupEntry(it.l, it.r), it.entry, "lookupEntry");
        if (it.present) {
            Sym.checkEq(c.one.getLeftAt(it.entry), it.l, "getLeftAt");
            Sym.checkEq(c.one.getRightAt(it.entry), it.r, "getRightAt");
        }
        side(c, it.l, true, Sym.choose(5));
        if (c.many != null) {
            side(c, it.r, false, Sym.choose(5));
            if (Sym.choose(2) == 0) {
                nested(c);
            }
        }
    }

    /** From every left of a right to the rights of that left: the two sides are looked through independently. */
    private static void nested(final Ctx c) {
        for (Item it : c.pool) {
            it.visits = 0;
        }
        c.many.withRight(c.pool[0].r).forEachValue(l -> c.many.withLeft(l).forEachEntry(e -> entry(c, l, true, e)));
        for (Item it : c.pool) {
            boolean in = false;
            for (Item o : c.pool) {
                in |= o.present && o.r == c.pool[0].r && o.l == it.l;
            }
            Sym.checkEq(it.visits, in && it.present ? 1 : 0, "a traversal within a traversal reports every pair once");
            it.visits = 0;
        }
    }

    private static void side(final Ctx c, final int key, final boolean left, final int how) {
        mapping(c, key, left, how, left ? c.one.withLeft(key) : c.many.withRight(key));
    }

    private static void mapping(final Ctx c, final int key, final boolean left, final int how, final Mapping m) {
        int n = 0;
        for (Item it : c.pool) {
            it.visits = 0;
            if (it.present && (left ? it.l : it.r) == key) {
                n++;
            }
        }
        switch (how) {
            case 0:
                m.forEachEntry(e -> entry(c, key, left, e));
                break;
            case 1:
                m.forEachValue(v -> value(c, key, left, v));
                break;
            case 2: {
                final IntIterator entries = m.entryIterator();
                final IntIterator values = m.valueIterator();
                while (entries.hasNext()) {
                    Sym.check(values.hasNext(), "there are as many values as entries");
                    final int e = entries.next();
                    final int v = values.next();
                    entry(c, key, left, e);
                    Sym.checkEq(left ? c.one.getRightAt(e) : c.one.getLeftAt(e), v, "entries and values come in the same order");
                }
                Sym.check(!values.hasNext(), "there are as many values as entries");
                break;
            }
            case 3:
                try {
                    Sym.checkEq(m.count(), n, "count");
                    Sym.check(c.counts, "count works only where counts are tracked");
                } catch (IllegalStateException | IllegalArgumentException e) {
                    Sym.check(!c.counts, "count works where counts are tracked");
                }
                return;
            default: {
                // half way through, and again from the beginning
                final IntIterator entries = m.entryIterator();
                if (entries.hasNext()) {
                    entries.next();
                }
                final IntIterator again = m.entryIterator();
                while (again.hasNext()) {
                    entry(c, key, left, again.next());
                }
                break;
            }
        }
        Sym.cover(left ? "left traversal" : "right traversal");
        for (Item it : c.pool) {
            final boolean in = it.present && (left ? it.l : it.r) == key;
            Sym.checkEq(it.visits, in ? 1 : 0, "the pairs of a key are reported once each, and no others");
            it.visits = 0;
        }
    }

    private static void entry(final Ctx c, final int key, final boolean left, final int e) {
        for (Item it : c.pool) {
            if (it.present && it.entry == e && (left ? it.l : it.r) == key) {
                it.visits++;
                return;
            }
        }
        Sym.fail("an entry that no pair of the key holds");
    }

    private static void value(final Ctx c, final int key, final boolean left, final int v) {
        for (Item it : c.pool) {
            if (it.present && (left ? it.l : it.r) == key && (left ? it.r : it.l) == v) {
                it.visits++;
                return;
            }
        }
        Sym.fail("a value that is in no pair of the key");
    }

    private static void all(final Ctx c) {
        c.one.forEachEntry(e -> {
            for (Item it : c.pool) {
                if (it.present && it.entry == e) {
                    it.visits++;
                    return;
                }
            }
            Sym.fail("forEachEntry reports an entry that no pair holds");
        });
        for (Item it : c.pool) {
            Sym.checkEq(it.visits, it.present ? 1 : 0, "forEachEntry reports every pair once");
            it.visits = 0;
        }
    }

    /** A traversal that removes any of the pairs it comes to, as soon as it comes to them. */
    private static void visit(final Ctx c) {
        final int of = c.many == null ? Sym.choose(2) : Sym.choose(3);
        final Item at = c.pool[of == 2 ? 0 : Sym.choose(c.pool.length)];
        final boolean[] in = new boolean[c.pool.length];
        for (int i = 0; i < in.length; i++) {
            final Item it = c.pool[i];
            it.visits = 0;
            in[i] = it.present && (of == 0 ? it.l == at.l : of == 1 && c.many != null ? it.r == at.r : true);
        }
        if (of == 2 || of == 1 && c.many == null) {
            c.one.forEachEntry(e -> visited(c, e));
        } else {
            final Mapping m = of == 0 ? c.one.withLeft(at.l) : c.many.withRight(at.r);
            final int key = of == 0 ? at.l : at.r;
            switch (Sym.choose(4)) {
                case 0:
                    m.forEachEntry(e -> visited(c, e));
                    break;
                case 1:
                    m.forEachValue(v -> visited(c, of == 0 ? c.one.lookupEntry(key, v) : c.one.lookupEntry(v, key)));
                    break;
                case 2: {
                    final IntIterator entries = m.entryIterator();
                    while (entries.hasNext()) {
                        visited(c, entries.next());
                    }
                    break;
                }
                default: {
                    final IntIterator values = m.valueIterator();
                    while (values.hasNext()) {
                        final int v = values.next();
                        visited(c, of == 0 ? c.one.lookupEntry(key, v) : c.one.lookupEntry(v, key));
                    }
                    break;
                }
            }
        }
        for (int i = 0; i < in.length; i++) {
            Sym.checkEq(c.pool[i].visits, in[i] ? 1 : 0, "a traversal that removes what it visits still visits every pair once");
            c.pool[i].visits = 0;
        }
    }

    private static void visited(final Ctx c, final int e) {
        for (Item it : c.pool) {
            if (it.present && it.entry == e) {
                it.visits++;
                Sym.check(it.visits == 1, "a pair is visited once");
                switch (Sym.choose(3)) {
                    case 1:
                        Sym.cover("removed by entry");
                        c.one.removeAt(e);
                        break;
                    case 2:
                        Sym.cover("removed by pair");
                        c.one.remove(it.l, it.r);
                        break;
                    default:
                        return;
                }
                c.free[c.freeN++] = it.entry;
                gone(c, it);
                return;
            }
        }
        Sym.fail("a traversal reports a pair that is not present");
    }

    /** Keys and pairs that were never put. */
    private static void strangers(final Ctx c) {
        final int to = Sym.param("to", 3);
        final int key = Sym.choose(2) == 0 ? Sym.param("base", 0) + to + Sym.choose(3) : -1 - Sym.choose(2);
        final boolean left = c.many == null || Sym.choose(2) == 0;
        Sym.check(!c.one.contains(left ? key : c.pool[0].l, left ? c.pool[0].r : key), "contains");
        Sym.checkEq(c.one.lookupEntry(left ? key : c.pool[0].l, left ? c.pool[0].r : key), -1, "lookupEntry");
        Sym.checkEq(c.one.remove(left ? key : c.pool[0].l, left ? c.pool[0].r : key), -1, "remove");
        Sym.checkEq(c.one.size(), c.size, "size");
        side(c, key, left, Sym.choose(5));
    }
}
