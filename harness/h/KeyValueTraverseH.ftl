<#assign M = key.name + value.name>
<#assign g = (key.generic && value.generic)?then("<Object, Object>", (key.generic || value.generic)?then("<Object>", ""))>
<#assign dia = (g == "")?then("", "<>")>
package h;

import com.bytefacets.collections.hash.${M}IndexedMap;
import sx.Sym;

/** Value traversals of an indexed map. */
public final class ${M}TraverseH {
    private ${M}TraverseH() {}

    static final class Item {
        ${key.t} k;
        boolean present;
        int entry = -1;
        ${value.t} v = ${value.default};
        boolean visited;
    }

    static final class Ctx {
        ${M}IndexedMap${g} map;
        Item[] pool;
        int calls;
    }

    public static void run() {
        final Ctx c = new Ctx();
        init(c);
        while (Sym.cut()) {
            step(c);
        }
    }

    private static void init(final Ctx c) {
        final int n = Sym.param("keys", 2);
        c.map = new ${M}IndexedMap${dia}(Sym.param("cap", 1), Sym.param("load", 75) / 100.0);
        c.pool = new Item[n];
        for (int i = 0; i < n; i++) {
            final Item it = new Item();
            it.k = ${key.any};
            it.v = ${value.any};
            c.pool[i] = it;
            for (int j = 0; j < i; j++) {
                Sym.assume(!${key.eq("it.k", "c.pool[j].k")});
            }
<#if key.name == "Float" || key.name == "Double">
            Sym.assume(it.k == it.k);
</#if>
        }
        Sym.bag(c.pool);
    }

    /** The items whose value this can be: one that was not visited yet. */
    private static void visit(final Ctx c, final ${value.t} v, final int mode) {
        c.calls++;
        for (Item it : c.pool) {
            if (it.present && !it.visited && ${value.ref?then("it.v == v", (value.name == "Float" || value.name == "Double")?then(value.box + ".compare(it.v, v) == 0", "it.v == v"))}) {
                it.visited = true;
                if (mode == 1) {
                    // equal values cannot be told apart, so the element is only removed when there is just this one
                    for (Item other : c.pool) {
                        if (other != it && other.present && ${value.ref?then("other.v == v", (value.name == "Float" || value.name == "Double")?then(value.box + ".compare(other.v, v) == 0", "other.v == v"))}) {
                            return;
                        }
                    }
                    Sym.cover("removed during a value traversal");
                    c.map.remove(${key.twin("it.k")});
                    it.present = false;
                    it.entry = -1;
                }
                return;
            }
        }
        Sym.fail("forEachValue yields a value that no present key has, or yields it too often");
    }

    private static void step(final Ctx c) {
        final int op = Sym.choose(3);
        if (op < 2) {
            final Item it = c.pool[Sym.choose(c.pool.length)];
            if (op == 0) {
                if (it.present) {
                    Sym.prune();
                }
                it.entry = c.map.put(it.k, it.v);
                it.present = true;
                Sym.observe(it.entry);
            } else {
                if (!it.present) {
                    Sym.prune();
                }
                c.map.remove(it.k);
                it.present = false;
                it.entry = -1;
            }
            return;
        }
        final int mode = Sym.choose(2);
        int before = 0;
        for (Item it : c.pool) {
            before += it.present ? 1 : 0;
        }
        c.map.forEachValue(v -> visit(c, (${value.t}) v, mode));
        Sym.checkEq(c.calls, before, "forEachValue yields as many values as there are keys");
        c.calls = 0;
        int live = 0;
        for (Item it : c.pool) {
            it.visited = false;
            Sym.checkEq(c.map.containsKey(it.k), it.present, "exactly the removed keys are gone");
            live += it.present ? 1 : 0;
        }
        Sym.checkEq(c.map.size(), live, "size after a traversal");
        Sym.cover(before > 1 ? "several present" : "at most one present");
    }
}
