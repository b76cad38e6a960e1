<#assign M = key.name + value.name>
<#assign g = (key.generic && value.generic)?then("<Object, Object>", (key.generic || value.generic)?then("<Object>", ""))>
<#assign dia = (g == "")?then("", "<>")>
package h;

import com.bytefacets.collections.EntryIterator;
import com.bytefacets.collections.exception.KeyNotFoundException;
import com.bytefacets.collections.hash.${M}IndexedMap;
import sx.Sym;

/** Histories of an indexed map over a pool of distinct keys of any value, with values of any value. */
public final class ${M}MapH {
    private ${M}MapH() {}

    static final class Item {
        ${key.t} k;
        boolean present;
        int entry = -1;
        ${value.t} v = ${value.default};
    }

    static final class Ctx {
        ${M}IndexedMap${g} map;
        Item[] pool;
        int size;
    }

    public static void run() {
        final Ctx c = new Ctx();
        init(c);
        while (Sym.cut()) {
            step(c);
        }
    }

    private static void init(final Ctx c) {
        final int n = Sym.param("keys", 2);
        c.map = new ${M}IndexedMap${dia}(Sym.param("cap", 1), Sym.param("load", 75) / 100.0);
        c.pool = new Item[n];
        for (int i = 0; i < n; i++) {
            final Item it = new Item();
            it.k = ${key.any};
            c.pool[i] = it;
            for (int j = 0; j < i; j++) {
                Sym.assume(!${key.eq("it.k", "c.pool[j].k")});
            }
<#if key.name == "Float" || key.name == "Double">
            Sym.assume(it.k == it.k);
</#if>
        }
        Sym.bag(c.pool);
    }

    private static ${value.t} fresh() {
        return ${value.any};
    }

    private static void step(final Ctx c) {
        final int op = Sym.choose(11);
        if (op == 8) {
            c.map.clear();
            Sym.cover("clear");
            for (Item it : c.pool) {
                gone(it);
            }
            c.size = 0;
            return;
        }
        final Item it = c.pool[Sym.choose(c.pool.length)];
        final ${key.t} key = ${key.twin("it.k")};
        switch (op) {
            case 0: {
                final ${value.t} v = fresh();
                Sym.cover(it.present ? "put again" : "put");
                added(c, it, c.map.put(it.present ? key : it.k, v));
                it.v = v;
                break;
            }
            case 1:
                Sym.cover(it.present ? "add again" : "add");
                added(c, it, c.map.add(it.present ? key : it.k));
                break;
            case 2:
                if (it.present) {
                    Sym.cover("remove");
                    c.size--;
                }
                c.map.remove(key);
                gone(it);
                break;
            case 3:
                if (!it.present) {
                    Sym.prune();
                }
                Sym.cover("removeAt");
                c.map.removeAt(it.entry);
                c.size--;
                gone(it);
                break;
            case 4: {
                if (!it.present) {
                    Sym.prune();
                }
                Sym.cover("putValueAt");
                final ${value.t} v = fresh();
                c.map.putValueAt(it.entry, v);
                it.v = v;
                break;
            }
            case 5:
                get(c, it, key);
                break;
            case 9: {
                if (!it.present) {
                    Sym.prune();
                }
                Sym.cover("removed through an iterator");
                final EntryIterator i = c.map.iterator();
                boolean found = false;
                while (!found && i.next()) {
                    if (i.currentEntry() == it.entry) {
                        i.remove();
                        found = true;
                    }
                }
                Sym.check(found, "the iterator visits the entry of a present key");
                c.size--;
                gone(it);
                break;
            }
            case 10:
                if (!it.present) {
                    Sym.prune();
                }
                Sym.cover("reserved and freed");
                c.map.removeAtAndReserve(it.entry);
                c.map.freeReservedEntry(it.entry);
                c.size--;
                gone(it);
                break;
            case 6: {
                final ${value.t} dflt = fresh();
                final ${value.t} got = c.map.getOrDefault(key, dflt);
                if (it.present) {
                    ${value.check("got", "it.v", "getOrDefault of a present key")};
                } else {
                    ${value.check("got", "dflt", "getOrDefault of an absent key")};
                }
                break;
            }
            default:
                at(c, it);
                break;
        }
        Sym.checkEq(c.map.size(), c.size, "size");
    }

    private static void added(final Ctx c, final Item it, final int entry) {
        Sym.observe(entry);
        Sym.check(entry >= 0, "an added key has an entry");
        if (!it.present) {
            it.present = true;
            it.v = ${value.default};
            c.size++;
        }
        it.entry = entry;
    }

    private static void gone(final Item it) {
        it.present = false;
        it.entry = -1;
        it.v = ${value.default};
    }

    private static void get(final Ctx c, final Item it, final ${key.t} key) {
        boolean found = true;
        ${value.t} got = ${value.default};
        try {
            got = (${value.t}) c.map.get(key);
        } catch (KeyNotFoundException e) {
            found = false;
        }
        Sym.checkEq(found, it.present, "get finds exactly the present keys");
        if (it.present) {
            ${value.check("got", "it.v", "get yields the value last stored")};
        }
    }

    private static void at(final Ctx c, final Item it) {
        final ${value.t} dflt = fresh();
        if (it.present) {
            ${value.check("(" + value.t + ") c.map.getValueAt(it.entry)", "it.v", "getValueAt yields the value last stored")};
            ${value.check("(" + value.t + ") c.map.getValueAtOrDefault(it.entry, dflt)", "it.v", "getValueAtOrDefault of a live entry")};
        } else {
            ${value.check("(" + value.t + ") c.map.getValueAtOrDefault(-1, dflt)", "dflt", "getValueAtOrDefault of -1")};
            ${value.check("(" + value.t + ") c.map.getValueAtOrDefault(1 << 20, dflt)", "dflt", "getValueAtOrDefault of an entry beyond the storage")};
        }
    }
}
