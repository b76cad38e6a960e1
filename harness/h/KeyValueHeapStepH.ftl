<#assign M = key.name + value.name>
<#assign g = (key.generic && value.generic)?then("<Object, Object>", (key.generic || value.generic)?then("<Object>", ""))>
<#assign dia = (g == "")?then("", "<>")>
package h;

import com.bytefacets.collections.heap.${M}Heap;
import com.bytefacets.collections.types.${key.name}Type;
import sx.Sym;

/** One operation on any heap-ordered tree, and then everything is taken out. */
public final class ${M}HeapStepH {
    private ${M}HeapStepH() {}

    static final class Ctx {
        ${M}Heap${g} heap;
        ${key.t}[] keys; // by entry
        boolean[] live;
        int size;
    }

    public static void run() {
        final int most = Sym.param("elements", 6);
        final int n = Sym.param("exact", 0) == 1 ? most : 1 + Sym.choose(most);
        final Ctx c = new Ctx();
        c.heap = new ${M}Heap${dia}(n + 1);
        c.keys = new ${key.t}[n + 1];
        c.live = new boolean[n + 1];
        final ${key.name}Type.Cmp cmp = c.heap.getComparator();
        for (int i = 0; i < n; i++) {
            final ${key.t} k = ${key.any};
            if (i > 0) {
                // keys that come in heap order stay where they are put: any heap can be made this way
                Sym.assume(cmp.compare(k, c.keys[(i - 1) / 2]) >= 0);
            }
            c.keys[i] = k;
            final int e = c.heap.insert(k);
            Sym.checkEq(e, i, "entries are taken in order");
            c.live[i] = true;
            c.size++;
        }
        final int op = Sym.param("op", -1);
        switch (op >= 0 ? op : Sym.choose(4)) {
            case 0: {
                final int e = Sym.choose(n);
                c.heap.removeAt(e);
                c.live[e] = false;
                c.size--;
                Sym.cover("removed");
                break;
            }
            case 1: {
                final int e = Sym.choose(n);
                c.keys[e] = ${key.any};
                c.heap.resetKey(e, c.keys[e]);
                Sym.cover("key reset");
                break;
            }
            case 2: {
                c.keys[n] = ${key.any};
                Sym.checkEq(c.heap.insert(c.keys[n]), n, "entries are taken in order");
                c.live[n] = true;
                c.size++;
                Sym.cover("inserted");
                break;
            }
            default:
                c.heap.setComparator(${key.name}Type.Desc);
                Sym.cover("comparator changed");
                break;
        }
        drain(c);
    }

    private static void drain(final Ctx c) {
        final ${key.name}Type.Cmp cmp = c.heap.getComparator();
        int last = -1;
        while (c.size > 0) {
            final int e = c.heap.peek();
            Sym.observe(e);
            Sym.check(e >= 0 && e < c.live.length && c.live[e], "peek yields a live entry");
            if (last >= 0) {
                Sym.check(cmp.compare(c.keys[last], c.keys[e]) <= 0, "elements leave in comparator order");
            }
            last = e;
            c.heap.removeAt(e);
            c.live[e] = false;
            c.size--;
            Sym.checkEq(c.heap.getSize(), c.size, "size counts the elements");
        }
    }
}
