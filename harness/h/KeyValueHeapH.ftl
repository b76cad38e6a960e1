<#assign M = key.name + value.name>
<#assign g = (key.generic && value.generic)?then("<Object, Object>", (key.generic || value.generic)?then("<Object>", ""))>
<#assign dia = (g == "")?then("", "<>")>
package h;

import com.bytefacets.collections.exception.InvalidEntryException;
import com.bytefacets.collections.exception.RangeCheckException;
import com.bytefacets.collections.heap.${M}Heap;
import com.bytefacets.collections.types.${key.name}Type;
import sx.Sym;

/** Histories of a heap with keys of any value, equal ones included. */
public final class ${M}HeapH {
    private ${M}HeapH() {}

    static final class Item {
        ${key.t} k = ${key.default};
        ${value.t} v = ${value.default};
        boolean live;
        int entry = -1;
        boolean visited;
    }

    static final class Ctx {
        ${M}Heap${g} heap;
        Item[] pool;
        int size;
        int allocated; // entries handed out since the last clear
        ${key.t} defaultKey = ${key.default};
        ${value.t} defaultValue = ${value.default};
        boolean own; // were defaults set?
        int about; // the number of the property
        ${key.t}[] keys; // the keys that occur, in ascending order
    }

    public static void run() {
        final Ctx c = new Ctx();
        init(c);
        while (Sym.cut()) {
            step(c);
        }
    }

    private static ${key.t} key() {
        return ${key.any};
    }

    private static void init(final Ctx c) {
        c.about = Sym.param("about", 9);
        c.heap = new ${M}Heap${dia}(Sym.param("cap", 1));
        if (c.about == 10 && Sym.choose(2) == 1) {
            defaults(c);
            Sym.cover("own defaults");
        }
        if (c.about == 10 && Sym.choose(2) == 1) {
            c.heap.setComparator((a, b) -> 0);
            Sym.cover("all keys compare as equal");
        }
        c.keys = new ${key.t}[Sym.param("keys", 3)];
        for (int i = 0; i < c.keys.length; i++) {
            c.keys[i] = key();
            if (i > 0) {
                Sym.assume(${key.before("c.keys[i - 1]", "c.keys[i]")});
            }
        }
        c.pool = new Item[Sym.param("elements", 3)];
        for (int i = 0; i < c.pool.length; i++) {
            c.pool[i] = new Item();
        }
        Sym.bag(c.pool);
    }

    /** Own defaults (of two that are equal, either may be kept). */
    private static void defaults(final Ctx c) {
        c.own = true;
        final ${key.t} k = key();
<#if key.name == "Float" || key.name == "Double">
        Sym.assume(k == k && k != 0);
</#if>
        c.heap.setDefaultKey(k);
        c.defaultKey = (${key.t}) c.heap.getDefaultKey();
        Sym.check(${key.eq("c.defaultKey", "k")}, "the default key is the one that was set");
        final ${value.t} v = ${value.any};
<#if value.name == "Float" || value.name == "Double">
        Sym.assume(v == v && v != 0);
</#if>
        c.heap.setDefaultValue(v);
        c.defaultValue = (${value.t}) c.heap.getDefaultValue();
        Sym.check(${value.eq("c.defaultValue", "v")}, "the default value is the one that was set");
    }

    /** The defaults of a heap that is not empty cannot be changed. */
    private static void keepsDefaults(final Ctx c) {
        boolean refused = false;
        try {
            c.heap.setDefaultKey(${key.any});
        } catch (RuntimeException e) {
            refused = true;
        }
        Sym.check(refused, "setDefaultKey is refused while there are elements");
        refused = false;
        try {
            c.heap.setDefaultValue(${value.any});
        } catch (RuntimeException e) {
            refused = true;
        }
        Sym.check(refused, "setDefaultValue is refused while there are elements");
        Sym.cover("defaults kept");
    }

    private static void step(final Ctx c) {
        final int op = Sym.choose(6);
        switch (op) {
            case 0:
                insert(c);
                break;
            case 1: {
                final Item it = live(c);
                c.heap.removeAt(it.entry);
                Sym.cover("removed");
                gone(it);
                c.size--;
                break;
            }
            case 2: {
                final Item it = live(c);
                it.k = c.keys[Sym.choose(c.keys.length)];
                c.heap.resetKey(it.entry, it.k);
                Sym.cover("key reset");
                break;
            }
            case 3:
                c.heap.clear();
                Sym.cover("cleared");
                for (Item it : c.pool) {
                    if (it.live) {
                        gone(it);
                    }
                }
                c.size = 0;
                c.allocated = 0;
                break;
            case 4:
                if (c.about == 9) {
                    if (c.heap.getComparator() == ${key.name}Type.Desc) {
                        c.heap.setComparator(${key.name}Type.Asc);
                    } else {
                        c.heap.setComparator(${key.name}Type.Desc);
                        Sym.cover("comparator changed");
                    }
                } else if (c.about == 10 && Sym.choose(2) == 1) {
                    if (c.size == 0) {
                        if (c.own) {
                            Sym.prune(); // once is enough
                        }
                        defaults(c);
                        Sym.cover("own defaults later");
                    } else {
                        keepsDefaults(c);
                        contents(c);
                        Sym.prune();
                    }
                } else if (c.about == 10) {
                    final Item it = live(c);
                    it.v = ${value.any};
                    c.heap.setValueAt(it.entry, it.v);
                } else {
                    refused(c);
                }
                break;
            default:
                if (c.about == 9) {
                    head(c);
                } else if (c.about == 10) {
                    contents(c);
                } else {
                    entries(c);
                }
                Sym.prune();
                break;
        }
        Sym.checkEq(c.heap.getSize(), c.size, "size counts the elements");
        Sym.checkEq(c.heap.isEmpty(), c.size == 0, "isEmpty agrees with size");
    }

    private static Item live(final Ctx c) {
        final Item it = c.pool[Sym.choose(c.pool.length)];
        if (!it.live) {
            Sym.prune();
        }
        return it;
    }

    private static void gone(final Item it) {
        it.live = false;
        it.entry = -1;
        it.k = ${key.default};
        it.v = ${value.default};
    }

    private static void insert(final Ctx c) {
        Item it = null;
        for (Item x : c.pool) {
            if (!x.live) {
                it = x;
            }
        }
        if (it == null) {
            Sym.prune();
        }
        it.k = c.keys[Sym.choose(c.keys.length)];
        final int e;
        if (c.about == 10 && Sym.choose(2) == 0) {
            e = c.heap.insert(it.k);
            it.v = c.defaultValue;
        } else {
            if (c.about == 10) {
                it.v = ${value.any};
            }
            e = c.heap.insert(it.k, it.v);
        }
        Sym.observe(e);
        if (c.about == 10) {
            for (Item x : c.pool) {
                Sym.check(!x.live || x.entry != e, "no two live elements share an entry");
            }
            if (c.size < c.allocated) {
                Sym.cover("reused");
                Sym.check(e >= 0 && e < c.allocated, "freed entries are reused first");
            } else {
                Sym.checkEq(e, c.allocated, "new entries are taken in order");
            }
        }
        if (c.size == c.allocated) {
            c.allocated++;
        }
        it.entry = e;
        it.live = true;
        c.size++;
    }

    private static void head(final Ctx c) {
        final ${key.name}Type.Cmp cmp = c.heap.getComparator();
        final ${key.t} some = key();
        final int found = c.heap.getFirstEntry(some);
        boolean expected = false;
        boolean right = found == -1;
        for (Item it : c.pool) {
            if (it.live) {
                final boolean same = cmp.compare(some, it.k) == 0;
                expected |= same;
                right |= same && it.entry == found;
            }
        }
        Sym.checkEq(found != -1, expected, "getFirstEntry finds a key exactly if one compares equal");
        Sym.check(right, "getFirstEntry yields the entry of such a key");
        Sym.checkEq(c.heap.containsKey(some), expected, "containsKey");
        if (c.size == 0) {
            return;
        }
        Sym.cover("head");
        Item head = null;
        final int e = c.heap.peek();
        for (Item it : c.pool) {
            if (it.live && it.entry == e) {
                head = it;
            }
        }
        Sym.check(head != null, "peek yields a live entry");
        for (Item it : c.pool) {
            if (it.live && it != head) {
                Sym.check(cmp.compare(it.k, head.k) >= 0, "no element precedes the head");
            }
        }
    }

    private static void contents(final Ctx c) {
        final int cap = c.heap.getCapacity();
        for (int e = 0; e < cap; e++) {
            Item at = null;
            for (Item it : c.pool) {
                if (it.live && it.entry == e) {
                    at = it;
                }
            }
            if (at != null) {
                ${key.check("(" + key.t + ") c.heap.getKeyAt(e)", "at.k", "the key of a live entry")};
                ${value.check("(" + value.t + ") c.heap.getValueAt(e)", "at.v", "the value of a live entry")};
                ${value.check("(" + value.t + ") c.heap.getValueAtOrDefault(e, " + value.default + ")", "at.v", "getValueAtOrDefault of a live entry")};
            } else {
                Sym.cover("an entry that is not live");
                ${key.check("(" + key.t + ") c.heap.getKeyAt(e)", "c.defaultKey", "an entry that is not live has the default key")};
                ${value.check("(" + value.t + ") c.heap.getValueAt(e)", "c.defaultValue", "an entry that is not live has the default value")};
            }
        }
        final ${value.t} other = ${value.any};
        ${value.check("(" + value.t + ") c.heap.getValueAtOrDefault(-1, other)", "other", "getValueAtOrDefault of -1")};
        ${value.check("(" + value.t + ") c.heap.getValueAtOrDefault(1 << 20, other)", "other", "getValueAtOrDefault beyond the storage")};
    }

    private static Item at(final Ctx c, final int e) {
        for (Item it : c.pool) {
            if (it.live && it.entry == e) {
                return it;
            }
        }
        return null;
    }

    private static void entries(final Ctx c) {
        final int e = Sym.concrete(Sym.range(-2, c.heap.getCapacity() + 1));
        Sym.checkEq(c.heap.isValidEntry(e), at(c, e) != null, "isValidEntry recognises exactly the live entries");
        Sym.checkEq(c.heap.isValidEntry(Integer.MIN_VALUE), false, "isValidEntry of the least int");
        Sym.checkEq(c.heap.isValidEntry(Integer.MAX_VALUE), false, "isValidEntry of the greatest int");
        c.heap.forEachEntry(x -> {
            final Item it = at(c, x);
            Sym.check(it != null, "forEachEntry yields only live entries");
            Sym.check(!it.visited, "forEachEntry yields no entry twice");
            it.visited = true;
        });
        for (Item it : c.pool) {
            Sym.checkEq(it.visited, it.live, "forEachEntry yields every live entry");
        }
    }

    private static void refused(final Ctx c) {
        final int cap = c.heap.getCapacity();
        final int e = Sym.choose(2) == 0 ? Sym.concrete(Sym.range(0, cap - 1)) : Sym.anyInt();
        if (e >= 0 && e < cap) {
            Sym.concrete(e);
            if (at(c, e) != null) {
                Sym.prune();
            }
        }
        int how = 0;
        try {
            c.heap.removeAt(e);
        } catch (InvalidEntryException x) {
            how = 1;
        } catch (RangeCheckException x) {
            how = 2;
        }
        Sym.observe(how);
        Sym.cover(how == 1 ? "refused inside" : how == 2 ? "refused outside" : "not refused");
        Sym.checkEq(how, e >= 0 && e < cap ? 1 : 2, "removeAt refuses an entry that is not live");
    }
}
