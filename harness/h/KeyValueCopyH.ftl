<#assign M = key.name + value.name>
<#assign g = (key.generic && value.generic)?then("<Object, Object>", (key.generic || value.generic)?then("<Object>", ""))>
<#assign dia = (g == "")?then("", "<>")>
package h;

import com.bytefacets.collections.hash.${M}IndexedMap;
import sx.Sym;

/** Two maps, one of which is copied into the other now and then. */
public final class ${M}CopyH {
    private ${M}CopyH() {}

    static final class Item {
        ${key.t} k;
        boolean inA;
        boolean inB;
        int entryA = -1;
        int entryB = -1;
        ${value.t} va = ${value.default};
        ${value.t} vb = ${value.default};
    }

    static final class Ctx {
        ${M}IndexedMap${g} a;
        ${M}IndexedMap${g} b;
        Item[] pool;
        int sizeA;
        int sizeB;
    }

    public static void run() {
        final Ctx c = new Ctx();
        init(c);
        while (Sym.cut()) {
            step(c);
        }
    }

    private static void init(final Ctx c) {
        final int n = Sym.param("keys", 2);
        c.a = new ${M}IndexedMap${dia}(Sym.param("capA", 1), Sym.param("loadA", 75) / 100.0);
        c.b = new ${M}IndexedMap${dia}(Sym.param("capB", 1), 0.75);
        c.pool = new Item[n];
        for (int i = 0; i < n; i++) {
            final Item it = new Item();
            it.k = ${key.any};
            c.pool[i] = it;
            for (int j = 0; j < i; j++) {
                Sym.assume(!${key.eq("it.k", "c.pool[j].k")});
            }
<#if key.name == "Float" || key.name == "Double">
            Sym.assume(it.k == it.k);
</#if>
        }
        Sym.bag(c.pool);
    }

    private static void step(final Ctx c) {
        final int op = Sym.choose(8);
        if (op == 0) {
            copy(c);
            return;
        }
        final Item it = c.pool[Sym.choose(c.pool.length)];
        switch (op) {
            case 1: {
                final ${value.t} v = ${value.any};
                it.entryA = c.a.put(it.k, v);
                it.va = v;
                c.sizeA += it.inA ? 0 : 1;
                it.inA = true;
                break;
            }
            case 2: {
                final ${value.t} v = ${value.any};
                it.entryB = c.b.put(it.k, v);
                it.vb = v;
                c.sizeB += it.inB ? 0 : 1;
                it.inB = true;
                break;
            }
            case 3:
                if (it.inB) {
                    Sym.prune();
                }
                // a key that is only added has the default value
                it.entryB = c.b.add(it.k);
                c.sizeB++;
                it.inB = true;
                break;
            case 4:
                if (!it.inA) {
                    Sym.prune();
                }
                Sym.checkEq(c.a.remove(it.k), it.entryA, "removing from the source");
                it.inA = false;
                it.entryA = -1;
                it.va = ${value.default};
                c.sizeA--;
                break;
            case 5:
                if (!it.inB) {
                    Sym.prune();
                }
                Sym.checkEq(c.b.remove(it.k), it.entryB, "removing from the copy");
                it.inB = false;
                it.entryB = -1;
                it.vb = ${value.default};
                c.sizeB--;
                break;
            case 6:
                source(c, it);
                break;
            default:
                target(c, it);
                break;
        }
        Sym.checkEq(c.a.size(), c.sizeA, "size of the source");
        Sym.checkEq(c.b.size(), c.sizeB, "size of the copy");
    }

    private static void source(final Ctx c, final Item it) {
        Sym.checkEq(c.a.lookupEntry(it.k), it.entryA, "entry in the source");
        if (it.inA) {
            ${value.check("(" + value.t + ") c.a.get(it.k)", "it.va", "value in the source")};
        }
    }

    private static void target(final Ctx c, final Item it) {
        Sym.checkEq(c.b.lookupEntry(it.k), it.entryB, "entry in the copy");
        if (it.inB) {
            ${value.check("(" + value.t + ") c.b.get(it.k)", "it.vb", "value in the copy")};
            ${value.check("(" + value.t + ") c.b.getValueAt(it.entryB)", "it.vb", "value in the copy, by entry")};
        }
    }

    private static void copy(final Ctx c) {
        Sym.cover(c.sizeB > 0 ? "copy over content" : "copy into an empty map");
        c.b.copyFrom(c.a);
        for (Item it : c.pool) {
            it.inB = it.inA;
            it.entryB = it.entryA;
            it.vb = it.va;
            source(c, it);
            target(c, it);
        }
        c.sizeB = c.sizeA;
        Sym.checkEq(c.a.size(), c.sizeA, "size of the source");
        Sym.checkEq(c.b.size(), c.sizeB, "size of the copy");
    }
}
