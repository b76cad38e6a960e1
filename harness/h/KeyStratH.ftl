package h;

import com.bytefacets.collections.hash.${type.name}IndexedSet;
<#if type.name == "Float" || type.name == "Double" || type.ref>
import com.bytefacets.collections.hash.${type.name}IntIndexedMap;
</#if>
import com.bytefacets.collections.types.${type.name}Type;
import sx.Sym;

<#macro cls e><#if type.name == "Float">(Float.floatToRawIntBits(${e}) >>> 1)<#elseif type.name == "Double">(Double.doubleToRawLongBits(${e}) >>> 1)<#elseif type.name == "String">(${e} == null ? -1 : ${e}.charAt(0))<#else>(${e} == null ? -1 : ((Vals.Obj) ${e}).id >>> 1)</#if></#macro>
/** Hash and equality strategies of the caller, null keys, and any hash code. */
public final class ${type.name}StratH {
    private ${type.name}StratH() {}

    static final class Item {
        ${type.t} key;
        int hashA;
        int hashB;
        boolean present;
        int entry = -1;
        int value;
        boolean visited;
    }

    static final class Ctx implements ${type.name}Type.Eq {
        ${type.name}IndexedSet${type.g} set;
        ${type.name}IntIndexedMap${type.g} map;
        Item[] pool;
        int size;
        boolean custom;

        @Override
        public boolean areEqual(final ${type.t} a, final ${type.t} b) {
            return <@cls e="a"/> == <@cls e="b"/>;
        }
    }

    static final class Hash implements ${type.name}Type.Hash {
        final Ctx c;
        final boolean b;

        Hash(final Ctx c, final boolean b) {
            this.c = c;
            this.b = b;
        }

        @Override
        public int code(final ${type.t} k) {
            for (Item it : c.pool) {
                if (<@cls e="k"/> == <@cls e="it.key"/>) {
                    return b ? it.hashB : it.hashA;
                }
            }
            Sym.fail("the hash of a key nobody gave");
            return 0;
        }
    }

    public static void run() {
        final Ctx c = new Ctx();
        init(c);
        while (Sym.cut()) {
            step(c);
        }
    }

    private static void init(final Ctx c) {
        final int n = Sym.param("keys", 2);
        c.custom = Sym.param("custom", 1) == 1;
        c.pool = new Item[n];
        for (int i = 0; i < n; i++) {
            final Item it = new Item();
            c.pool[i] = it;
<#if type.ref>
            it.key = i == 0 ? null : ${type.any};
<#else>
            it.key = ${type.any};
</#if>
            it.hashA = c.custom ? Sym.anyInt() : 0;
            it.hashB = c.custom ? Sym.anyInt() : 0;
            for (int j = 0; j < i; j++) {
                if (c.custom) {
                    Sym.assume(<@cls e="it.key"/> != <@cls e="c.pool[j].key"/>);
                } else {
                    Sym.assume(!${type.eq("it.key", "c.pool[j].key")});
                }
            }
<#if !type.ref>
            if (!c.custom) {
                Sym.assume(it.key == it.key);
            }
</#if>
        }
        Sym.bag(c.pool);
        if (Sym.param("map", 0) == 1) {
            c.map = new ${type.name}IntIndexedMap${type.diamond}(Sym.param("cap", 1));
            if (c.custom) {
                c.map.setHashMethod(new Hash(c, false));
                c.map.setEqMethod(c);
            }
        } else {
            c.set = new ${type.name}IndexedSet${type.diamond}(Sym.param("cap", 1));
            if (c.custom) {
                c.set.setHashMethod(new Hash(c, false));
                c.set.setEqMethod(c);
            }
        }
    }

    /** A key that the configured equality takes for the same. */
    private static ${type.t} alias(final Ctx c, final ${type.t} key) {
        if (c.custom) {
<#if type.name == "Float">
            return Float.intBitsToFloat(Float.floatToRawIntBits(key) ^ 1);
<#elseif type.name == "Double">
            return Double.longBitsToDouble(Double.doubleToRawLongBits(key) ^ 1);
<#elseif type.name == "String">
            return key == null ? null : key.substring(0, 1);
<#else>
            return key == null ? null : new Vals.Obj(((Vals.Obj) key).id ^ 1, ((Vals.Obj) key).hash + 1);
</#if>
        }
        return ${type.twin("key")};
    }

    private static void step(final Ctx c) {
        final int op = Sym.choose(6);
        if (op == 4) {
            strategies(c);
            return;
        }
        if (op == 5) {
            all(c);
            return;
        }
        final Item it = c.pool[Sym.choose(c.pool.length)];
        final ${type.t} key = alias(c, it.key);
        switch (op) {
            case 0: {
                final int e;
                if (c.map != null) {
                    final int v = Sym.anyInt();
                    e = c.map.put(it.present ? key : it.key, v);
                    it.value = v;
                } else {
                    e = c.set.add(it.present ? key : it.key);
                }
                Sym.observe(e);
                if (it.present) {
                    Sym.cover("add again");
                    Sym.checkEq(e, it.entry, "adding a key that equals a present one returns its entry");
                } else {
                    it.present = true;
                    it.entry = e;
                    c.size++;
                }
                break;
            }
            case 1: {
                final int e = c.map != null ? c.map.remove(key) : c.set.remove(key);
                Sym.checkEq(e, it.entry, "removing a key frees its entry");
                if (it.present) {
                    Sym.cover("remove");
                    it.present = false;
                    it.entry = -1;
                    it.value = 0;
                    c.size--;
                }
                break;
            }
            case 2: {
                if (!it.present) {
                    Sym.prune();
                }
                if (c.map != null) {
                    c.map.removeAt(it.entry);
                } else {
                    c.set.removeAt(it.entry);
                }
                it.present = false;
                it.entry = -1;
                it.value = 0;
                c.size--;
                break;
            }
            default:
                if (c.map != null) {
                    Sym.checkEq(c.map.containsKey(key), it.present, "containsKey");
                    Sym.checkEq(c.map.lookupEntry(key), it.entry, "lookupEntry");
                    Sym.checkEq(c.map.getOrDefault(key, 0), it.value, "getOrDefault");
                } else {
                    Sym.checkEq(c.set.containsKey(key), it.present, "containsKey");
                    Sym.checkEq(c.set.lookupEntry(key), it.entry, "lookupEntry");
                }
                break;
        }
        Sym.checkEq(c.map != null ? c.map.size() : c.set.size(), c.size, "size");
    }

    private static void visit(final Ctx c, final ${type.t} k) {
        for (Item it : c.pool) {
            if (c.custom ? c.areEqual(it.key, k) : ${type.eq("it.key", "k")}) {
                Sym.check(it.present && !it.visited, "forEach yields the present keys, each once");
                it.visited = true;
                return;
            }
        }
        Sym.fail("forEach yields a key that was never added");
    }

    private static void all(final Ctx c) {
        if (c.map != null) {
            c.map.forEach(k -> visit(c, (${type.t}) k));
        } else {
            c.set.forEach(k -> visit(c, (${type.t}) k));
        }
        for (Item it : c.pool) {
            Sym.checkEq(it.visited, it.present, "forEach yields all present keys");
            it.visited = false;
        }
    }

    /** Changing the strategies is possible on an empty collection only. */
    private static void strategies(final Ctx c) {
        if (!c.custom || Sym.param("change", 1) == 0) {
            Sym.prune();
        }
        final boolean eq = Sym.choose(2) == 0;
        final boolean b = Sym.choose(2) == 0;
        boolean refused = false;
        try {
            if (eq) {
                final ${type.name}Type.Eq never = c.size > 0 ? (x, y) -> false : c;
                if (c.map != null) {
                    c.map.setEqMethod(never);
                } else {
                    c.set.setEqMethod(never);
                }
            } else {
                final ${type.name}Type.Hash other = new Hash(c, b);
                if (c.map != null) {
                    c.map.setHashMethod(other);
                } else {
                    c.set.setHashMethod(other);
                }
            }
        } catch (IllegalStateException e) {
            refused = true;
        }
        Sym.cover(refused ? "strategy refused" : "strategy changed");
        Sym.checkEq(refused, c.size > 0, "strategies can be changed on an empty collection only");
    }
}
