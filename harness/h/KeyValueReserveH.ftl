<#assign M = key.name + value.name>
<#assign g = (key.generic && value.generic)?then("<Object, Object>", (key.generic || value.generic)?then("<Object>", ""))>
<#assign dia = (g == "")?then("", "<>")>
package h;

import com.bytefacets.collections.hash.${M}IndexedMap;
import sx.Sym;

/** Entries that are withheld from reuse for a while. */
public final class ${M}ReserveH {
    private ${M}ReserveH() {}

    static final class Item {
        ${key.t} k;
        boolean present;
        int entry = -1;
        ${value.t} v = ${value.default};
        int reserved = -1; // an entry that was taken from this key and not freed yet
        ${value.t} rv = ${value.default};
        boolean visited;
    }

    static final class Ctx {
        ${M}IndexedMap${g} map;
        Item[] pool;
        int size;
        int nextUnused;
        int[] free;
        int freeN;
    }

    public static void run() {
        final Ctx c = new Ctx();
        init(c);
        while (Sym.cut()) {
            step(c);
        }
    }

    private static void init(final Ctx c) {
        final int n = Sym.param("keys", 2);
        c.map = new ${M}IndexedMap${dia}(Sym.param("cap", 1), Sym.param("load", 75) / 100.0);
        c.pool = new Item[n];
        c.free = new int[2 * n];
        for (int i = 0; i < n; i++) {
            final Item it = new Item();
            it.k = ${key.any};
            c.pool[i] = it;
            for (int j = 0; j < i; j++) {
                Sym.assume(!${key.eq("it.k", "c.pool[j].k")});
            }
<#if key.name == "Float" || key.name == "Double">
            Sym.assume(it.k == it.k);
</#if>
        }
        Sym.bag(c.pool);
    }

    private static void step(final Ctx c) {
        final int op = Sym.choose(8);
        if (op == 7) {
            all(c);
            return;
        }
        final Item it = c.pool[Sym.choose(c.pool.length)];
        switch (op) {
            case 0: {
                if (it.present) {
                    Sym.prune();
                }
                final ${value.t} v = ${value.any};
                it.entry = c.map.put(it.k, v);
                Sym.observe(it.entry);
                int expected;
                if (c.freeN > 0) {
                    expected = c.free[--c.freeN];
                    c.free[c.freeN] = 0;
                } else {
                    expected = c.nextUnused++;
                }
                for (Item o : c.pool) {
                    Sym.check(o.reserved != it.entry, "a reserved entry is not handed out");
                    Sym.check(o == it || o.entry != it.entry, "no two keys share an entry");
                }
                Sym.checkEq(it.entry, expected, "freed entries are used again, the last one first");
                it.v = v;
                it.present = true;
                c.size++;
                break;
            }
            case 1: {
                if (!it.present || it.reserved >= 0) {
                    Sym.prune();
                }
                Sym.cover("reserved");
                c.map.removeAtAndReserve(it.entry);
                it.reserved = it.entry;
                it.rv = it.v;
                gone(c, it);
                break;
            }
            case 2: {
                if (it.reserved < 0) {
                    Sym.prune();
                }
                Sym.cover("freed");
                c.map.freeReservedEntry(it.reserved);
                ${key.check("(" + key.t + ") c.map.getKeyAt(it.reserved)", key.default, "a freed entry has the default key")};
                ${value.check("(" + value.t + ") c.map.getValueAt(it.reserved)", value.default, "a freed entry has the default value")};
                c.free[c.freeN++] = it.reserved;
                it.reserved = -1;
                it.rv = ${value.default};
                break;
            }
            case 3: {
                if (!it.present) {
                    Sym.prune();
                }
                Sym.checkEq(c.map.remove(it.k), it.entry, "remove");
                c.free[c.freeN++] = it.entry;
                gone(c, it);
                break;
            }
            case 4: {
                if (!it.present) {
                    Sym.prune();
                }
                c.map.removeAt(it.entry);
                c.free[c.freeN++] = it.entry;
                gone(c, it);
                break;
            }
            case 5:
                Sym.checkEq(c.map.containsKey(${key.twin("it.k")}), it.present, "containsKey");
                Sym.checkEq(c.map.lookupEntry(${key.twin("it.k")}), it.entry, "lookupEntry");
                if (it.present) {
                    ${value.check("(" + value.t + ") c.map.get(it.k)", "it.v", "the value of a present key")};
                }
                break;
            default:
                if (it.reserved < 0) {
                    Sym.prune();
                }
                ${key.checkKey("(" + key.t + ") c.map.getKeyAt(it.reserved)", "it.k", "a reserved entry keeps its key")};
                ${value.check("(" + value.t + ") c.map.getValueAt(it.reserved)", "it.rv", "a reserved entry keeps its value")};
                break;
        }
        Sym.checkEq(c.map.size(), c.size, "size");
    }

    private static void gone(final Ctx c, final Item it) {
        it.present = false;
        it.entry = -1;
        it.v = ${value.default};
        c.size--;
    }

    private static void all(final Ctx c) {
        c.map.forEach(k -> {
            for (Item it : c.pool) {
                if (${key.eq("it.k", "((" + key.t + ") k)")}) {
                    Sym.check(it.present && !it.visited, "forEach yields the present keys, each once");
                    it.visited = true;
                    return;
                }
            }
            Sym.fail("forEach yields a key that was never added");
        });
        for (Item it : c.pool) {
            Sym.checkEq(it.visited, it.present, "forEach yields every present key");
            it.visited = false;
        }
    }
}
