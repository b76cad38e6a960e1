package h;

import com.bytefacets.collections.hash.${type.name}IndexedSet;
import com.bytefacets.collections.types.${type.name}Type;
import sx.Sym;

<#assign plug = type.name == "Float" || type.name == "Double" || type.ref>
<#macro cls e><#if type.name == "Float">(Float.floatToRawIntBits(${e}) >>> 1)<#elseif type.name == "Double">(Double.doubleToRawLongBits(${e}) >>> 1)<#elseif type.name == "String">(${e} == null ? -1 : ${e}.charAt(0))<#else>(${e} == null ? -1 : ((Vals.Obj) ${e}).id >>> 1)</#if></#macro>
/** Two sets, one of which is copied into the other now and then. */
public final class ${type.name}CopyH {
    private ${type.name}CopyH() {}

    static final class Item {
        ${type.t} key;
        int hash;
        boolean inA;
        boolean inB;
        int entryA = -1;
        int entryB = -1;
        boolean visited;
    }

    static final class Ctx <#if plug>implements ${type.name}Type.Eq, ${type.name}Type.Hash </#if>{
        ${type.name}IndexedSet${type.g} a;
        ${type.name}IndexedSet${type.g} b;
        Item[] pool;
        int sizeA;
        int sizeB;
<#if plug>

        @Override
        public boolean areEqual(final ${type.t} x, final ${type.t} y) {
            return <@cls e="x"/> == <@cls e="y"/>;
        }

        @Override
        public int code(final ${type.t} k) {
            for (Item it : pool) {
                if (areEqual(k, it.key)) {
                    return it.hash;
                }
            }
            Sym.fail("the hash of a key nobody gave");
            return 0;
        }
</#if>
    }

    public static void run() {
        final Ctx c = new Ctx();
        init(c);
        while (Sym.cut()) {
            step(c);
        }
    }

    private static void init(final Ctx c) {
        final int n = Sym.param("keys", 2);
        final boolean custom = Sym.param("custom", 0) == 1;
        c.a = new ${type.name}IndexedSet${type.diamond}(Sym.param("capA", 1), Sym.param("loadA", 75) / 100.0);
        c.b = new ${type.name}IndexedSet${type.diamond}(Sym.param("capB", 1), 0.75);
        c.pool = new Item[n];
        for (int i = 0; i < n; i++) {
            final Item it = new Item();
            it.key = ${type.any};
            c.pool[i] = it;
            for (int j = 0; j < i; j++) {
<#if plug>
                if (custom) {
                    Sym.assume(!c.areEqual(it.key, c.pool[j].key));
                }
</#if>
                Sym.assume(!${type.eq("it.key", "c.pool[j].key")});
            }
<#if type.name == "Float" || type.name == "Double">
            Sym.assume(it.key == it.key);
</#if>
            if (custom) {
                it.hash = Sym.anyInt();
            }
        }
        Sym.bag(c.pool);
<#if plug>
        if (custom) {
            c.a.setHashMethod(c);
            c.a.setEqMethod(c);
            if (Sym.choose(2) == 0) {
                c.b.setHashMethod(c);
                c.b.setEqMethod(c);
            }
        }
</#if>
    }

    private static void step(final Ctx c) {
        final int op = Sym.choose(8);
        if (op == 0) {
            copy(c);
            return;
        }
        if (op == 1) {
            all(c, Sym.choose(2) == 0);
            return;
        }
        final Item it = c.pool[Sym.choose(c.pool.length)];
        switch (op) {
            case 2: {
                if (it.inA) {
                    Sym.prune();
                }
                it.entryA = c.a.add(it.key);
                it.inA = true;
                c.sizeA++;
                for (Item o : c.pool) {
                    Sym.check(o == it || !o.inA || o.entryA != it.entryA, "no two keys of the source share an entry");
                }
                break;
            }
            case 3: {
                if (it.inB) {
                    Sym.prune();
                }
                it.entryB = c.b.add(it.key);
                it.inB = true;
                c.sizeB++;
                for (Item o : c.pool) {
                    Sym.check(o == it || !o.inB || o.entryB != it.entryB, "no two keys of the copy share an entry");
                }
                break;
            }
            case 4:
                if (!it.inA) {
                    Sym.prune();
                }
                Sym.checkEq(c.a.remove(it.key), it.entryA, "removing from the source");
                it.inA = false;
                it.entryA = -1;
                c.sizeA--;
                break;
            case 5:
                if (!it.inB) {
                    Sym.prune();
                }
                Sym.checkEq(c.b.remove(it.key), it.entryB, "removing from the copy");
                it.inB = false;
                it.entryB = -1;
                c.sizeB--;
                break;
            case 6:
                Sym.checkEq(c.a.lookupEntry(${type.twin("it.key")}), it.entryA, "lookupEntry in the source");
                break;
            default:
                Sym.checkEq(c.b.lookupEntry(${type.twin("it.key")}), it.entryB, "lookupEntry in the copy");
                break;
        }
        sizes(c);
    }

    private static void sizes(final Ctx c) {
        Sym.checkEq(c.a.size(), c.sizeA, "size of the source");
        Sym.checkEq(c.b.size(), c.sizeB, "size of the copy");
    }

    private static void copy(final Ctx c) {
        Sym.cover(c.sizeB > 0 ? "copy over content" : "copy into an empty set");
        c.b.copyFrom(c.a);
        for (Item it : c.pool) {
            it.inB = it.inA;
            it.entryB = it.entryA;
            Sym.checkEq(c.a.lookupEntry(it.key), it.entryA, "the source keeps its entries");
            Sym.checkEq(c.b.lookupEntry(it.key), it.entryB, "the copy has the same entries");
            if (it.inB) {
                ${type.checkKey("c.b.getKeyAt(it.entryB)", "it.key", "the copy has the same keys")};
            }
        }
        c.sizeB = c.sizeA;
        sizes(c);
    }

    private static void visit(final Ctx c, final ${type.t} k, final boolean inA) {
        for (Item it : c.pool) {
            if (${type.eq("it.key", "k")}) {
                Sym.check(inA ? it.inA : it.inB, "forEach yields only present keys");
                Sym.check(!it.visited, "forEach yields no key twice");
                it.visited = true;
                return;
            }
        }
        Sym.fail("forEach yields a key that was never added");
    }

    private static void all(final Ctx c, final boolean inA) {
        (inA ? c.a : c.b).forEach(k -> visit(c, (${type.t}) k, inA));
        for (Item it : c.pool) {
            Sym.checkEq(it.visited, inA ? it.inA : it.inB, "forEach yields every present key");
            it.visited = false;
        }
    }
}
