package h;

<#assign M = key.name + value.name>
<#assign params = (key.generic?then("Object,", "") + value.generic?then("Object,", ""))>
<#assign g = (params == "")?then("", "<" + params?remove_ending(",") + ">")>
<#assign dia = (params == "")?then("", "<>")>
import com.bytefacets.collections.EntryIterator;
import com.bytefacets.collections.hash.${M}IndexedMap;
import sx.Sym;

/**
 * A map with many keys, one of which may be any key at all: it is filled, thinned out in some pattern, and then filled
 * again, cleared, copied, traversed or asked about any key.
 */
public final class ${M}CrowdH {
    private ${M}CrowdH() {}

    static final class Ctx {
        ${M}IndexedMap${g} map;
        int n; // keys with a number; the key n is the one that may be any
        ${key.t}[] keys;
        ${value.t}[] values;
        boolean[] present;
        int[] entry;
        int[] visits;
        int most; // the most keys there ever were at once
        int held; // reserved entries
        boolean entries; // are entries judged?
        boolean worth; // are values judged?
        int size;
    }

    public static void run() {
        final Ctx c = new Ctx();
        c.n = Sym.param("n", 20);
        final int about = Sym.param("about", 1);
        c.entries = about == 2 || about > 4;
        c.worth = about == 3 || about == 6;
        double load = Sym.param("load", 75) / 100.0;
        if (load == 0) { // capacities up to the grain have the threshold they have with one of these
            final int grain = Sym.param("grain", 16);
            load = (double) Sym.concrete(Sym.range(1, grain)) / grain;
        }
        c.map = new ${M}IndexedMap${dia}(Sym.param("cap", 1), load);
        c.keys = new ${key.t}[c.n + 1];
        c.values = new ${value.t}[c.n + 1];
        c.present = new boolean[c.n + 1];
        c.entry = new int[c.n + 1];
        c.visits = new int[c.n + 1];
        final int stride = Sym.param("stride", 1);
        for (int i = 0; i < c.n; i++) {
            c.keys[i] = ${key.of("i * stride", "1")};
        }
        c.keys[c.n] = ${key.any};
<#if key.name == "Float" || key.name == "Double">
        Sym.assume(c.keys[c.n] == c.keys[c.n]);
</#if>
        for (int i = 0; i < c.n; i++) {
            Sym.assume(!${key.eq("c.keys[i]", "c.keys[c.n]")});
        }
        // the key that may be any comes before, among, after all others, or not at all
        final int at = Sym.choose(4);
        for (int i = 0; i < c.n; i++) {
            if (at < 2 && i == at * c.n / 2) {
                put(c, c.n, 0);
            }
            put(c, i, 0);
        }
        if (at == 2) {
            put(c, c.n, 0);
        }
        thinOut(c, Sym.choose(5), about);
        switch (about) {
            case 1:
            case 2:
            case 3:
                if (Sym.choose(2) == 1) {
                    c.map.clear();
                    for (int i = 0; i <= c.n; i++) {
                        gone(c, i);
                    }
                    c.size = 0;
                    c.most = 0;
                    if (Sym.choose(2) == 1) {
                        Sym.cover("cleared");
                        break;
                    }
                }
                refill(c);
                break;
            case 4:
                traverse(c, Sym.choose(3));
                break;
            case 5:
                refill(c);
                break;
            case 6:
                copy(c);
                break;
            default:
                reserve(c);
                break;
        }
        all(c);
        Sym.cover("done");
    }

    private static void put(final Ctx c, final int i, final int shift) {
        final ${value.t} v = ${value.of("i + shift", "1")};
        final int e = c.map.put(c.keys[i], v);
        c.values[i] = v;
        if (c.present[i]) {
            if (c.entries) {
                Sym.checkEq(e, c.entry[i], "putting a present key returns its entry");
            }
            return;
        }
        c.size++;
        c.most = Math.max(c.most, c.size + c.held);
        if (c.entries) {
            Sym.check(e >= 0 && e < c.most, "entries that were freed are used again");
            for (int j = 0; j <= c.n; j++) {
                Sym.check(!c.present[j] || c.entry[j] != e, "no two keys share an entry");
            }
        }
        c.present[i] = true;
        c.entry[i] = e;
    }

    private static void gone(final Ctx c, final int i) {
        if (c.present[i]) {
            c.size--;
        }
        c.present[i] = false;
        c.entry[i] = -1;
    }

    /** 0: nothing, 1: every other key, 2: the first half, 3: all but two, 4: everything. */
    private static boolean out(final Ctx c, final int pattern, final int i) {
        return pattern == 1 && i % 2 == 0 || pattern == 2 && i < c.n / 2 || pattern == 3 && i != c.n - 1 && i != 3 || pattern == 4;
    }

    private static int byEntry(final Ctx c, final int e) {
        for (int i = 0; i <= c.n; i++) {
            if (c.present[i] && c.entry[i] == e) {
                Sym.check(++c.visits[i] == 1, "a traversal yields no key twice");
                return i;
            }
        }
        Sym.fail("a traversal yields an entry that holds no key");
        return -1;
    }

    private static void visitedAll(final Ctx c, final boolean[] before) {
        for (int i = 0; i <= c.n; i++) {
            Sym.checkEq(c.visits[i], before[i] ? 1 : 0, "a traversal yields every key");
            c.visits[i] = 0;
        }
    }

    private static void thinOut(final Ctx c, final int pattern, final int about) {
        final boolean[] before = c.present.clone();
        if (about == 4) {
            c.map.forEachEntry(e -> {
                final int i = byEntry(c, e);
                if (out(c, pattern, i)) {
                    c.map.removeAt(e);
                    gone(c, i);
                }
            });
            visitedAll(c, before);
        } else if (about == 5) {
            final EntryIterator it = c.map.iterator();
            while (it.next()) {
                final int i = byEntry(c, it.currentEntry());
                if (out(c, pattern, i)) {
                    it.remove();
                    gone(c, i);
                }
            }
            visitedAll(c, before);
        } else {
            for (int i = 0; i <= c.n; i++) {
                if (c.present[i] && out(c, pattern, i)) {
                    if (i % 3 == 0) {
                        c.map.removeAt(c.entry[i]);
                    } else {
                        c.map.remove(c.keys[i]);
                    }
                    gone(c, i);
                }
            }
        }
    }

    /** In the opposite order, and with other values. */
    private static void refill(final Ctx c) {
        for (int i = c.n; i >= 0; i--) {
            put(c, i, 5);
        }
        Sym.cover("filled again");
    }

    private static void traverse(final Ctx c, final int how) {
        final boolean[] before = c.present.clone();
        if (how == 0) {
            final EntryIterator it = c.map.iterator();
            while (it.next()) {
                byEntry(c, it.currentEntry());
            }
            visitedAll(c, before);
        } else if (how == 1) {
            final int[] calls = new int[1];
            c.map.forEachValue(v -> calls[0]++);
            Sym.checkEq(calls[0], c.size, "forEachValue yields as many values as there are keys");
        } else {
            final int[] calls = new int[1];
            c.map.forEach(k -> calls[0]++);
            Sym.checkEq(calls[0], c.size, "forEach yields as many keys as there are");
        }
    }

    private static void copy(final Ctx c) {
        final int[] caps = {1, 16, 64};
        final ${M}IndexedMap${g} from = c.map;
        final ${M}IndexedMap${g} to = new ${M}IndexedMap${dia}(caps[Sym.choose(caps.length)], 0.5);
        final int had = Sym.choose(2) * (c.n + 7);
        for (int i = 0; i < had; i++) {
            to.put(${key.of("i * 3 + 1", "1")}, ${value.of("i", "1")});
        }
        to.copyFrom(from);
        c.map = to;
        all(c);
        if (Sym.choose(2) == 0) {
            to.clear();
            Sym.checkEq(to.size(), 0, "a copy can be cleared");
            for (int i = 0; i <= c.n; i++) {
                Sym.check(!to.containsKey(c.keys[i]), "a copy can be cleared");
            }
            c.map = from;
            Sym.cover("copy cleared");
        } else {
            final boolean[] present = c.present.clone();
            final int[] entry = c.entry.clone();
            final ${value.t}[] values = c.values.clone();
            final int size = c.size;
            refill(c);
            all(c);
            c.map = from;
            c.present = present;
            c.entry = entry;
            c.values = values;
            c.size = size;
        }
    }

    private static void reserve(final Ctx c) {
        final int[] entry = new int[c.n + 1];
        for (int i = 0; i <= c.n; i++) {
            entry[i] = -1;
            if (c.present[i] && i % 2 == 1) {
                c.map.removeAtAndReserve(c.entry[i]);
                entry[i] = c.entry[i];
                gone(c, i);
                c.held++;
            }
        }
        refill(c);
        for (int i = 0; i <= c.n; i++) {
            if (entry[i] >= 0) {
                for (int j = 0; j <= c.n; j++) {
                    Sym.check(!c.present[j] || c.entry[j] != entry[i], "a reserved entry is not handed out");
                }
                c.map.freeReservedEntry(entry[i]);
                c.held--;
            }
        }
        final int most = c.most;
        for (int i = 0; i <= c.n; i += 2) {
            if (c.present[i]) {
                c.map.remove(c.keys[i]);
                gone(c, i);
            }
        }
        refill(c);
        Sym.checkEq(c.most, most, "freed entries are used again");
    }

    private static void all(final Ctx c) {
        Sym.checkEq(c.map.size(), c.size, "size");
        for (int i = 0; i <= c.n; i++) {
            final int e = c.map.lookupEntry(${key.twin("c.keys[i]")});
            if (e != -1 && c.worth) {
                ${value.check("(" + value.t + ") c.map.get(" + key.twin("c.keys[i]") + ")", "c.values[i]", "the value of a key")};
            }
            Sym.checkEq(e != -1, c.present[i], "which keys are there");
            if (c.entries) {
                Sym.checkEq(e, c.present[i] ? c.entry[i] : -1, "lookupEntry");
            }
            if (c.present[i] && c.worth) {
                ${value.check("(" + value.t + ") c.map.getValueAt(e)", "c.values[i]", "the value of a key")};
            }
            if (c.present[i] && c.entries) {
                ${key.checkKey("(" + key.t + ") c.map.getKeyAt(e)", "c.keys[i]", "the key of an entry")};
            }
        }
    }
}
