<#assign M = key.name + value.name>
<#assign g = (key.generic && value.generic)?then("<Object, Object>", (key.generic || value.generic)?then("<Object>", ""))>
<#assign dia = (g == "")?then("", "<>")>
package h;

import com.bytefacets.collections.exception.InvalidEntryException;
import com.bytefacets.collections.heap.${M}Heap;
import com.bytefacets.collections.types.${key.name}Type;
import sx.Sym;

/** A heap with many elements, one of which has any key at all. */
public final class ${M}HeapCrowdH {
    private ${M}HeapCrowdH() {}

    static final class Ctx {
        ${M}Heap${g} heap;
        int about;
        int n;
        ${key.t}[] keys; // by element
        ${value.t}[] values;
        int[] entry; // -1: not there
        int size;
        int most;
        boolean[] seen;
    }

    public static void run() {
        final Ctx c = new Ctx();
        c.about = Sym.param("about", 9);
        c.n = Sym.param("n", 18);
        c.heap = new ${M}Heap${dia}(Sym.param("cap", 1));
        c.keys = new ${key.t}[c.n + 1];
        c.values = new ${value.t}[c.n + 1];
        c.entry = new int[c.n + 1];
        c.seen = new boolean[c.n + 1];
        final int order = Sym.choose(3);
        final int spread = Sym.param("spread", 1); // how many elements share a key
        for (int i = 0; i <= c.n; i++) {
            final int rank = (order == 0 ? i : order == 1 ? c.n - i : i * 7 % (c.n + 1)) / spread;
            c.keys[i] = ${key.ordered("rank * 3")};
            c.values[i] = ${value.of("i", "1")};
            c.entry[i] = -1;
        }
        final int any = Sym.choose(3) * c.n / 2;
        c.keys[any] = ${key.any};
        for (int i = 0; i <= c.n; i++) {
            insert(c, i);
        }
        final int pattern = Sym.choose(4);
        for (int i = 0; i <= c.n; i++) {
            if (pattern == 1 && i % 2 == 0 || pattern == 2 && i < c.n / 2 || pattern == 3 && i > 2) {
                remove(c, i);
            }
        }
        look(c);
        switch (Sym.choose(4)) {
            case 0:
                break;
            case 1:
                for (int i = 0; i <= c.n; i += 2) {
                    if (c.entry[i] >= 0 && i != any) {
                        c.keys[i] = ${key.ordered("c.n - i")};
                        c.heap.resetKey(c.entry[i], c.keys[i]);
                    }
                }
                Sym.cover("keys reset");
                break;
            case 2:
                c.heap.setComparator(${key.name}Type.Desc);
                Sym.cover("comparator changed");
                break;
            default:
                if (pattern == 3) {
                    c.heap.clear();
                    for (int i = 0; i <= c.n; i++) {
                        c.entry[i] = -1;
                    }
                    c.size = 0;
                    c.most = 0;
                }
                for (int i = c.n; i >= 0; i--) {
                    if (c.entry[i] < 0) {
                        insert(c, i);
                    }
                }
                Sym.cover("filled again");
                break;
        }
        look(c);
        drain(c);
    }

    private static void insert(final Ctx c, final int i) {
        final int e = c.heap.insert(c.keys[i], c.values[i]);
        c.size++;
        c.most = Math.max(c.most, c.size);
        if (c.about == 10) {
            Sym.check(e >= 0 && e < c.most, "freed entries are used again");
            for (int j = 0; j <= c.n; j++) {
                Sym.check(c.entry[j] != e, "no two elements share an entry");
            }
        }
        c.entry[i] = e;
    }

    private static void remove(final Ctx c, final int i) {
        c.heap.removeAt(c.entry[i]);
        if (c.about == 11) {
            Sym.check(!c.heap.isValidEntry(c.entry[i]), "a removed entry is not valid");
            boolean refused = false;
            try {
                c.heap.removeAt(c.entry[i]);
            } catch (InvalidEntryException e) {
                refused = true;
            }
            Sym.check(refused, "a removed entry is not removed again");
        }
        c.entry[i] = -1;
        c.size--;
    }

    private static int element(final Ctx c, final int e) {
        for (int i = 0; i <= c.n; i++) {
            if (c.entry[i] == e) {
                return i;
            }
        }
        return -1;
    }

    private static void look(final Ctx c) {
        Sym.checkEq(c.heap.getSize(), c.size, "size");
        if (c.about == 10) {
            for (int i = 0; i <= c.n; i++) {
                if (c.entry[i] >= 0) {
                    ${key.check("(" + key.t + ") c.heap.getKeyAt(c.entry[i])", "c.keys[i]", "the key of an entry")};
                    ${value.check("(" + value.t + ") c.heap.getValueAt(c.entry[i])", "c.values[i]", "the value of an entry")};
                }
            }
        } else if (c.about == 11) {
            for (int e = -1; e <= c.heap.getCapacity(); e++) {
                Sym.checkEq(c.heap.isValidEntry(e), e >= 0 && element(c, e) >= 0, "isValidEntry recognises exactly the live entries");
            }
            final int[] calls = new int[1];
            c.heap.forEachEntry(e -> {
                final int i = element(c, e);
                Sym.check(i >= 0 && !c.seen[i], "forEachEntry yields live entries once");
                c.seen[i] = true;
                calls[0]++;
            });
            Sym.checkEq(calls[0], c.size, "forEachEntry yields every live entry");
            c.seen = new boolean[c.n + 1];
        }
    }

    private static void drain(final Ctx c) {
        final ${key.name}Type.Cmp cmp = c.heap.getComparator();
        int last = -1;
        while (c.size > 0) {
            final int e = c.heap.peek();
            final int i = element(c, e);
            Sym.check(i >= 0, "peek yields a live entry");
            if (last >= 0 && c.about == 9) {
                Sym.check(cmp.compare(c.keys[last], c.keys[i]) <= 0, "elements leave in comparator order");
            }
            last = i;
            remove(c, i);
        }
        Sym.check(c.heap.isEmpty(), "everything is taken out");
        Sym.cover("drained");
    }
}
