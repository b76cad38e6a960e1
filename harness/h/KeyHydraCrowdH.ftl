package h;

import com.bytefacets.collections.functional.${type.name}Iterator;
import com.bytefacets.collections.queue.${type.name}HydraDeque;
import sx.Sym;

/** Many lists of many values in one multi-headed deque, all of them any at all. about=13: the sequences; about=14: the entries. */
public final class ${type.name}HydraCrowdH {
    private ${type.name}HydraCrowdH() {}

    private static ${type.name}HydraDeque${type.g} deque;
    private static ${type.t}[][] model;
    private static int[][] entry;
    private static int[] head;
    private static int[] tail;
    private static int[] free;
    private static int freeN;
    private static int nextUnused;
    private static int size;
    private static boolean entries;

    public static void run() {
        final int n = Sym.param("n", 30);
        final int lists = Sym.param("lists", 5);
        entries = Sym.param("about", 13) == 14;
        deque = new ${type.name}HydraDeque${type.diamond}(Sym.param("queues", 1), Sym.param("cap", 1));
        model = new ${type.t}[lists][8 * n];
        entry = new int[lists][8 * n];
        head = new int[lists];
        tail = new int[lists];
        free = new int[8 * n];
        forget(n);
        final int fill = Sym.choose(3);
        for (int i = 0; i < n; i++) {
            // round robin, one list after the other, or lists of unequal size
            final int l = fill == 0 ? i % lists : fill == 1 ? lists - 1 - i * lists / n : i * i % lists;
            add(l, i % 3 == 1);
        }
        look();
        switch (Sym.choose(4)) {
            case 0:
                break;
            case 1: // whole lists
                for (int l = 0; l < lists; l += 2) {
                    while (tail[l] > head[l]) {
                        remove(l, tail[l] % 2 == 0);
                    }
                }
                Sym.cover("emptied lists");
                break;
            case 2: // some of each
                final int some = Sym.range(0, n);
                for (int i = 0; i < some; i++) {
                    remove(i % lists, i % 2 == 0);
                }
                break;
            default:
                deque.clear();
                forget(n);
                break;
        }
        look();
        for (int i = 0; i < n; i++) {
            add((i + 1) % lists, i % 4 != 0);
        }
        look();
        for (int i = 0; size > 0; i++) {
            remove(i % lists, i % 3 == 0);
        }
        look();
        Sym.cover("drained");
    }

    private static void forget(final int n) {
        for (int l = 0; l < head.length; l++) {
            head[l] = 4 * n;
            tail[l] = 4 * n;
        }
        freeN = 0;
        nextUnused = 0;
        size = 0;
    }

    private static void add(final int l, final boolean first) {
        final ${type.t} v = ${type.any};
        final int e;
        if (first) {
            e = deque.addFirst(l, v);
            head[l]--;
            model[l][head[l]] = v;
            entry[l][head[l]] = e;
        } else {
            e = deque.addLast(l, v);
            model[l][tail[l]] = v;
            entry[l][tail[l]] = e;
            tail[l]++;
        }
        size++;
        if (entries) {
            if (freeN > 0) {
                Sym.checkEq(e, free[--freeN], "freed entries are used again, the last one first");
            } else {
                Sym.checkEq(e, nextUnused++, "new entries are taken in order from 0");
            }
        }
    }

    private static void remove(final int l, final boolean first) {
        if (tail[l] == head[l]) {
            return;
        }
        if (first) {
            ${type.check("(" + type.t + ") deque.removeFirst(l)", "model[l][head[l]]", "removeFirst")};
            free[freeN++] = entry[l][head[l]++];
        } else {
            tail[l]--;
            ${type.check("(" + type.t + ") deque.removeLast(l)", "model[l][tail[l]]", "removeLast")};
            free[freeN++] = entry[l][tail[l]];
        }
        size--;
    }

    private static void look() {
        Sym.checkEq(deque.size(), size, "size of all lists");
        if (entries) {
            return;
        }
        ${type.name}Iterator${type.g} f = null;
        ${type.name}Iterator${type.g} r = null;
        for (int l = 0; l < head.length; l++) {
            Sym.checkEq(deque.size(l), tail[l] - head[l], "size of a list");
            f = deque.iterator(l, f);
            for (int i = head[l]; i < tail[l]; i++) {
                Sym.check(f.hasNext(), "an iterator has all values of the list");
                ${type.check("(" + type.t + ") f.next()", "model[l][i]", "iteration goes from head to tail")};
            }
            Sym.check(!f.hasNext(), "an iterator has no more values than the list");
            r = deque.reverseIterator(l, r);
            for (int i = tail[l] - 1; i >= head[l]; i--) {
                Sym.check(r.hasNext(), "a reverse iterator has all values of the list");
                ${type.check("(" + type.t + ") r.next()", "model[l][i]", "reverse iteration goes from tail to head")};
            }
            Sym.check(!r.hasNext(), "a reverse iterator has no more values than the list");
        }
    }
}
