package h;

import com.bytefacets.collections.EntryIterator;
import com.bytefacets.collections.hash.${type.name}IndexedSet;
import java.util.ConcurrentModificationException;
import sx.Sym;

/** An entry iterator that lives through changes made by itself and by others. */
public final class ${type.name}IterH {
    private ${type.name}IterH() {}

    static final class Item {
        ${type.t} key;
        boolean present;
        int entry = -1;
        boolean visited;
    }

    static final class Ctx {
        ${type.name}IndexedSet${type.g} set;
        Item[] pool;
        int size;
        EntryIterator iterator;
        boolean active; // between (re)start and the end
        boolean stale; // the collection was changed by others since
        int changes; // how often
        Item current; // what the iterator stands on; null: nothing
    }

    public static void run() {
        final Ctx c = new Ctx();
        init(c);
        while (Sym.cut()) {
            step(c);
        }
    }

    private static void init(final Ctx c) {
        final int n = Sym.param("keys", 3);
        c.set = new ${type.name}IndexedSet${type.diamond}(Sym.param("cap", 1), Sym.param("load", 75) / 100.0);
        c.pool = new Item[n];
        for (int i = 0; i < n; i++) {
            final Item it = new Item();
            it.key = ${type.any};
            c.pool[i] = it;
            for (int j = 0; j < i; j++) {
                Sym.assume(!${type.eq("it.key", "c.pool[j].key")});
            }
<#if type.name == "Float" || type.name == "Double">
            Sym.assume(it.key == it.key);
</#if>
        }
        Sym.bag(c.pool);
    }

    private static void step(final Ctx c) {
        switch (Sym.choose(8)) {
            case 0:
                add(c, c.pool[Sym.choose(c.pool.length)]);
                break;
            case 1:
                remove(c, c.pool[Sym.choose(c.pool.length)]);
                break;
            case 2:
                if (c.size == 0 && c.active || Sym.param("changes", 2) == 0) {
                    Sym.prune();
                }
                c.set.clear();
                for (Item it : c.pool) {
                    it.present = false;
                    it.entry = -1;
                    it.visited = false;
                }
                c.size = 0;
                changed(c);
                break;
            case 3:
                if (c.active && Sym.param("changes", 2) == 0) {
                    Sym.prune();
                }
                c.iterator = c.set.iterator();
                started(c);
                break;
            case 4:
                if (c.iterator == null || Sym.param("changes", 2) == 0) {
                    Sym.prune();
                }
                Sym.cover("reuse");
                if (Sym.choose(2) == 0) {
                    c.iterator = c.set.iterator(c.iterator);
                } else {
                    c.iterator.reset();
                }
                started(c);
                break;
            case 5:
                next(c);
                break;
            case 6:
                iteratorRemove(c);
                break;
            default:
                copied(c);
                break;
        }
    }

    /** The set takes over the content of another one, which is empty or holds one key. */
    private static void copied(final Ctx c) {
        if (!c.active || c.stale || Sym.param("changes", 2) == 0) {
            Sym.prune();
        }
        final Item kept = Sym.choose(2) == 0 ? null : c.pool[Sym.choose(c.pool.length)];
        if (c.size == 0 && kept == null || c.size == 1 && kept != null && kept.present) {
            Sym.prune(); // nothing changes
        }
        Sym.cover("copied over");
        final ${type.name}IndexedSet${type.g} other = new ${type.name}IndexedSet${type.diamond}(Sym.param("cap", 1), Sym.param("load", 75) / 100.0);
        if (kept != null) {
            other.add(kept.key);
        }
        c.set.copyFrom(other);
        boolean refused = false;
        try {
            if (c.current == null || Sym.choose(2) == 0) {
                c.iterator.next();
            } else {
                c.iterator.remove();
            }
        } catch (ConcurrentModificationException e) {
            refused = true;
        }
        Sym.check(refused, "an iterator notices that the content was replaced by a copy");
        Sym.prune();
    }

    private static void started(final Ctx c) {
        c.active = true;
        c.stale = false;
        c.changes = 0;
        c.current = null;
        for (Item it : c.pool) {
            it.visited = false;
        }
    }

    private static void changed(final Ctx c) {
        if (c.active) {
            c.stale = true;
            if (++c.changes > Sym.param("changes", 2)) {
                Sym.prune();
            }
        } else {
            c.iterator = null;
        }
    }

    private static void add(final Ctx c, final Item it) {
        if (it.present) {
            // adding a present key is no change
            Sym.checkEq(c.set.add(it.key), it.entry, "adding a present key");
            return;
        }
        it.entry = c.set.add(it.key);
        Sym.observe(it.entry);
        Sym.check(it.entry >= 0 && it.entry < c.pool.length, "entries that were freed are used again");
        for (Item other : c.pool) {
            Sym.check(other == it || !other.present || other.entry != it.entry, "two present keys never share an entry");
        }
        it.present = true;
        c.size++;
        changed(c);
    }

    private static void remove(final Ctx c, final Item it) {
        if (!it.present) {
            Sym.checkEq(c.set.remove(it.key), -1, "removing an absent key");
            return;
        }
        c.set.remove(it.key);
        it.present = false;
        it.entry = -1;
        it.visited = false;
        c.size--;
        changed(c);
    }

    private static void next(final Ctx c) {
        if (!c.active) {
            Sym.prune();
        }
        boolean more = false;
        boolean refused = false;
        try {
            more = c.iterator.next();
        } catch (ConcurrentModificationException e) {
            refused = true;
        }
        Sym.observe(more);
        Sym.observe(refused);
        Sym.checkEq(refused, c.stale, "next throws exactly when the collection was changed by others");
        if (refused) {
            Sym.cover("next detects the change");
            stopped(c);
            return;
        }
        if (!more) {
            for (Item it : c.pool) {
                Sym.check(it.visited || !it.present, "the iteration yields every element");
            }
            Sym.cover("end");
            stopped(c);
            return;
        }
        c.current = null;
        for (Item it : c.pool) {
            if (it.present && it.entry == c.iterator.currentEntry()) {
                c.current = it;
            }
        }
        Sym.check(c.current != null, "the iterator stands on the entry of a present key");
        Sym.check(!c.current.visited, "the iteration yields no element twice");
        c.current.visited = true;
    }

    private static void stopped(final Ctx c) {
        c.active = false;
        if (Sym.param("changes", 2) == 0) {
            c.iterator = null;
        }
        c.stale = false;
        c.changes = 0;
        c.current = null;
        for (Item it : c.pool) {
            it.visited = false;
        }
    }

    private static void iteratorRemove(final Ctx c) {
        if (!c.active || c.current == null) {
            Sym.prune();
        }
        final Item it = c.current;
        int how = 0;
        try {
            c.iterator.remove();
        } catch (ConcurrentModificationException e) {
            how = 1;
        } catch (IllegalStateException e) {
            how = 2;
        }
        Sym.observe(how);
        if (c.stale) {
            Sym.cover("remove detects the change");
            Sym.checkEq(how, 1, "remove throws when the collection was changed by others");
            stopped(c);
            return;
        }
        if (!it.present) {
            Sym.cover("removed twice");
            Sym.checkEq(how, 2, "removing twice is refused");
        } else {
            Sym.cover("removed by the iterator");
            Sym.checkEq(how, 0, "removing the current element is possible");
            it.present = false;
            it.entry = -1;
            c.size--;
        }
        int live = 0;
        for (Item x : c.pool) {
            Sym.checkEq(c.set.containsKey(x.key), x.present, "exactly the current element is removed");
            live += x.present ? 1 : 0;
        }
        Sym.checkEq(c.set.size(), live, "size after a removal by the iterator");
    }
}
