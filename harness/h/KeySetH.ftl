package h;

import com.bytefacets.collections.EntryIterator;
import com.bytefacets.collections.hash.${type.name}IndexedSet;
import sx.Sym;

/** Histories of an indexed set over a pool of distinct keys of any value. */
public final class ${type.name}SetH {
    private ${type.name}SetH() {}

    static final class Item {
        ${type.t} key;
        boolean present;
        int entry = -1;
    }

    static final class Ctx {
        ${type.name}IndexedSet${type.g} set;
        Item[] pool;
        int size;
        int nextUnused;
        int[] free; // freed entries, most recently freed last
        int freeN;
        boolean entries; // is it about the entries (C02) or about the membership (C01)?
    }

    public static void run() {
        final Ctx c = new Ctx();
        init(c);
        while (Sym.cut()) {
            step(c);
        }
    }

    private static void init(final Ctx c) {
        final int n = Sym.param("keys", 3);
        c.entries = Sym.param("entries", 0) == 1;
        c.set = new ${type.name}IndexedSet${type.diamond}(Sym.param("cap", 1), Sym.param("load", 75) / 100.0);
        c.pool = new Item[n];
        c.free = new int[n];
        for (int i = 0; i < n; i++) {
            final Item it = new Item();
            it.key = ${type.any};
            c.pool[i] = it;
            for (int j = 0; j < i; j++) {
                Sym.assume(!${type.eq("it.key", "c.pool[j].key")});
            }
<#if type.name == "Float" || type.name == "Double">
            Sym.assume(it.key == it.key);
</#if>
        }
        Sym.bag(c.pool);
    }

    private static void step(final Ctx c) {
        final int op = Sym.choose(7);
        if (op == 5) {
            c.set.clear();
            Sym.cover("clear");
            for (Item it : c.pool) {
                it.present = false;
                it.entry = -1;
            }
            c.size = 0;
            c.nextUnused = 0;
            c.freeN = 0;
            for (int i = 0; i < c.free.length; i++) {
                c.free[i] = 0;
            }
        } else {
            final Item it = c.pool[Sym.choose(c.pool.length)];
            final boolean zero = ${(type.name == "Float" || type.name == "Double")?then("it.key == 0 && Sym.choose(2) == 1", "false")};
            final ${type.t} key = ${(type.name == "Float" || type.name == "Double")?then("zero ? -it.key : it.key", type.twin("it.key"))};
            switch (op) {
                case 0:
                    add(c, it, it.present ? key : it.key);
                    break;
                case 1:
                    remove(c, it, key);
                    break;
                case 2:
                    removeAt(c, it);
                    break;
                case 3:
                    query(c, it, key);
                    break;
                case 6:
                    removeByIterator(c, it);
                    break;
                default:
                    keyAt(c, it);
                    break;
            }
        }
        if (!c.entries) {
            Sym.checkEq(c.set.size(), c.size, "size counts the present keys");
            Sym.checkEq(c.set.isEmpty(), c.size == 0, "isEmpty agrees with size");
        }
    }

    private static void add(final Ctx c, final Item it, final ${type.t} key) {
        final int e = c.set.add(key);
        Sym.observe(e);
        if (it.present) {
            Sym.cover("add a present key");
            Sym.checkEq(e, it.entry, "adding a present key returns its entry");
            return;
        }
        final int expected;
        if (c.freeN > 0) {
            Sym.cover("add with a free entry");
            expected = c.free[--c.freeN];
            c.free[c.freeN] = 0;
        } else {
            Sym.cover("add without a free entry");
            expected = c.nextUnused++;
        }
        if (c.entries) {
            Sym.checkEq(e, expected, "a new key gets the last freed entry or the next unused one");
        }
        it.present = true;
        it.entry = e;
        c.size++;
    }

    private static void freed(final Ctx c, final Item it) {
        c.free[c.freeN++] = it.entry;
        it.present = false;
        it.entry = -1;
        c.size--;
    }

    private static void remove(final Ctx c, final Item it, final ${type.t} key) {
        final int e = c.set.remove(key);
        Sym.observe(e);
        if (!it.present) {
            Sym.cover("remove an absent key");
            Sym.checkEq(e, -1, "removing an absent key returns -1");
            return;
        }
        Sym.cover("remove a present key");
        if (c.entries) {
            Sym.checkEq(e, it.entry, "removing a key returns its entry");
        } else {
            Sym.check(e >= 0, "removing a present key reports it");
        }
        freed(c, it);
    }

    private static void removeAt(final Ctx c, final Item it) {
        if (!it.present) {
            Sym.prune();
        }
        Sym.cover("removeAt");
        c.set.removeAt(it.entry);
        freed(c, it);
    }

    private static void removeByIterator(final Ctx c, final Item it) {
        if (!it.present) {
            Sym.prune();
        }
        Sym.cover("removed through an iterator");
        final EntryIterator i = c.set.iterator();
        while (i.next()) {
            if (i.currentEntry() == it.entry) {
                i.remove();
                freed(c, it);
                return;
            }
        }
        Sym.fail("the iterator visits the entry of a present key");
    }

    private static void query(final Ctx c, final Item it, final ${type.t} key) {
        if (c.entries) {
            Sym.checkEq(c.set.lookupEntry(key), it.present ? it.entry : -1, "lookupEntry yields the entry the key was given");
        } else {
            Sym.checkEq(c.set.containsKey(key), it.present, "containsKey");
            Sym.checkEq(c.set.lookupEntry(key) != -1, it.present, "lookupEntry finds the present keys");
        }
    }

    private static void keyAt(final Ctx c, final Item it) {
        if (!c.entries || !it.present) {
            Sym.prune();
        }
        ${type.checkKey("c.set.getKeyAt(it.entry)", "it.key", "getKeyAt yields the key of the entry")};
    }
}
