package h;

import com.bytefacets.collections.hash.${type.name}IndexedSet;
import sx.Sym;

/** Entries that are withheld from reuse for a while. */
public final class ${type.name}ReserveH {
    private ${type.name}ReserveH() {}

    static final class Item {
        ${type.t} k;
        boolean present;
        int entry = -1;
        int reserved = -1; // an entry that was taken from this key and not freed yet
        boolean visited;
    }

    static final class Ctx {
        ${type.name}IndexedSet${type.g} set;
        Item[] pool;
        int size;
        int nextUnused;
        int[] free;
        int freeN;
    }

    public static void run() {
        final Ctx c = new Ctx();
        init(c);
        while (Sym.cut()) {
            step(c);
        }
    }

    private static void init(final Ctx c) {
        final int n = Sym.param("keys", 2);
        c.set = new ${type.name}IndexedSet${type.diamond}(Sym.param("cap", 1), Sym.param("load", 75) / 100.0);
        c.pool = new Item[n];
        c.free = new int[2 * n];
        for (int i = 0; i < n; i++) {
            final Item it = new Item();
            it.k = ${type.any};
            c.pool[i] = it;
            for (int j = 0; j < i; j++) {
                Sym.assume(!${type.eq("it.k", "c.pool[j].k")});
            }
<#if type.name == "Float" || type.name == "Double">
            Sym.assume(it.k == it.k);
</#if>
        }
        Sym.bag(c.pool);
    }

    private static void step(final Ctx c) {
        final int op = Sym.choose(8);
        if (op == 7) {
            all(c);
            return;
        }
        final Item it = c.pool[Sym.choose(c.pool.length)];
        switch (op) {
            case 0: {
                if (it.present) {
                    Sym.prune();
                }
                it.entry = c.set.add(it.k);
                Sym.observe(it.entry);
                int expected;
                if (c.freeN > 0) {
                    expected = c.free[--c.freeN];
                    c.free[c.freeN] = 0;
                } else {
                    expected = c.nextUnused++;
                }
                for (Item o : c.pool) {
                    Sym.check(o.reserved != it.entry, "a reserved entry is not handed out");
                    Sym.check(o == it || o.entry != it.entry, "no two keys share an entry");
                }
                Sym.checkEq(it.entry, expected, "freed entries are used again, the last one first");
                it.present = true;
                c.size++;
                break;
            }
            case 1: {
                if (!it.present || it.reserved >= 0) {
                    Sym.prune();
                }
                Sym.cover("reserved");
                c.set.removeAtAndReserve(it.entry);
                it.reserved = it.entry;
                gone(c, it);
                break;
            }
            case 2: {
                if (it.reserved < 0) {
                    Sym.prune();
                }
                Sym.cover("freed");
                c.set.freeReservedEntry(it.reserved);
                ${type.check("(" + type.t + ") c.set.getKeyAt(it.reserved)", type.default, "a freed entry has the default key")};
                c.free[c.freeN++] = it.reserved;
                it.reserved = -1;
                break;
            }
            case 3: {
                if (!it.present) {
                    Sym.prune();
                }
                Sym.checkEq(c.set.remove(it.k), it.entry, "remove");
                c.free[c.freeN++] = it.entry;
                gone(c, it);
                break;
            }
            case 4: {
                if (!it.present) {
                    Sym.prune();
                }
                c.set.removeAt(it.entry);
                c.free[c.freeN++] = it.entry;
                gone(c, it);
                break;
            }
            case 5:
                Sym.checkEq(c.set.containsKey(${type.twin("it.k")}), it.present, "containsKey");
                Sym.checkEq(c.set.lookupEntry(${type.twin("it.k")}), it.entry, "lookupEntry");
                break;
            default:
                if (it.reserved < 0) {
                    Sym.prune();
                }
                ${type.checkKey("(" + type.t + ") c.set.getKeyAt(it.reserved)", "it.k", "a reserved entry keeps its key")};
                break;
        }
        Sym.checkEq(c.set.size(), c.size, "size");
    }

    private static void gone(final Ctx c, final Item it) {
        it.present = false;
        it.entry = -1;
        c.size--;
    }

    private static void all(final Ctx c) {
        c.set.forEach(k -> {
            for (Item it : c.pool) {
                if (${type.eq("it.k", "((" + type.t + ") k)")}) {
                    Sym.check(it.present && !it.visited, "forEach yields the present keys, each once");
                    it.visited = true;
                    return;
                }
            }
            Sym.fail("forEach yields a key that was never added");
        });
        for (Item it : c.pool) {
            Sym.checkEq(it.visited, it.present, "forEach yields every present key");
            it.visited = false;
        }
    }
}
