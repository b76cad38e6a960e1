package h;

import com.bytefacets.collections.EntryIterator;
import com.bytefacets.collections.hash.${type.name}IndexedSet;
import sx.Sym;

/** Traversals of an indexed set in every state that adds and removals can bring it into. */
public final class ${type.name}TraverseH {
    private ${type.name}TraverseH() {}

    static final class Item {
        ${type.t} key;
        boolean present;
        int entry = -1;
        boolean visited;
    }

    static final class Ctx {
        ${type.name}IndexedSet${type.g} set;
        Item[] pool;
        int size;
    }

    public static void run() {
        final Ctx c = new Ctx();
        init(c);
        while (Sym.cut()) {
            step(c);
        }
    }

    private static void init(final Ctx c) {
        final int n = Sym.param("keys", 3);
        c.set = new ${type.name}IndexedSet${type.diamond}(Sym.param("cap", 1), Sym.param("load", 75) / 100.0);
        c.pool = new Item[n];
        for (int i = 0; i < n; i++) {
            final Item it = new Item();
            it.key = ${type.any};
            c.pool[i] = it;
            for (int j = 0; j < i; j++) {
                Sym.assume(!${type.eq("it.key", "c.pool[j].key")});
            }
<#if type.name == "Float" || type.name == "Double">
            Sym.assume(it.key == it.key);
</#if>
        }
        Sym.bag(c.pool);
    }

    private static Item byKey(final Ctx c, final ${type.t} key) {
        for (Item it : c.pool) {
            if (${type.eq("it.key", "key")}) {
                return it;
            }
        }
        Sym.fail("a traversal yields a key that was never added");
        return null;
    }

    private static Item byEntry(final Ctx c, final int entry) {
        for (Item it : c.pool) {
            if (it.present && it.entry == entry) {
                return it;
            }
        }
        Sym.fail("a traversal yields an entry that holds no key");
        return null;
    }

    private static void visit(final Item it) {
        Sym.check(it.present, "a traversal yields only present keys");
        Sym.check(!it.visited, "a traversal yields no key twice");
        it.visited = true;
    }

    private static void removeMaybe(final Ctx c, final Item it) {
        final int how = Sym.choose(3);
        if (how == 1) {
            Sym.cover("removed by key during a traversal");
            c.set.remove(${type.twin("it.key")});
        } else if (how == 2) {
            Sym.cover("removed by entry during a traversal");
            c.set.removeAt(it.entry);
        } else {
            return;
        }
        it.present = false;
        it.entry = -1;
        c.size--;
    }

    private static void step(final Ctx c) {
        final int op = Sym.choose(6);
        switch (op) {
            case 0: {
                final Item it = c.pool[Sym.choose(c.pool.length)];
                if (it.present) {
                    Sym.prune();
                }
                it.entry = c.set.add(it.key);
                it.present = true;
                c.size++;
                Sym.observe(it.entry);
                return;
            }
            case 1: {
                final Item it = c.pool[Sym.choose(c.pool.length)];
                if (!it.present) {
                    Sym.prune();
                }
                c.set.remove(it.key);
                it.present = false;
                it.entry = -1;
                c.size--;
                return;
            }
            case 2:
                c.set.forEach(k -> {
                    final Item it = byKey(c, (${type.t}) k);
                    visit(it);
                    removeMaybe(c, it);
                });
                break;
            case 3:
                c.set.forEachEntry(e -> {
                    final Item it = byEntry(c, e);
                    visit(it);
                    removeMaybe(c, it);
                });
                break;
            case 4:
                if (c.size == 0) {
                    Sym.prune();
                }
                c.set.clear();
                for (Item it : c.pool) {
                    it.present = false;
                    it.entry = -1;
                }
                c.size = 0;
                return;
            default: {
                final EntryIterator i = c.set.iterator();
                while (i.next()) {
                    visit(byEntry(c, i.currentEntry()));
                }
                Sym.check(!i.next(), "a finished iterator stays finished");
                break;
            }
        }
        int live = 0;
        for (Item it : c.pool) {
            Sym.check(it.visited || !it.present, "a traversal yields every present key");
            it.visited = false;
            Sym.checkEq(c.set.containsKey(${type.twin("it.key")}), it.present, "exactly the removed keys are gone");
            live += it.present ? 1 : 0;
        }
        Sym.checkEq(c.set.size(), live, "size after a traversal");
        Sym.cover(live > 1 ? "several present" : "at most one present");
    }
}
