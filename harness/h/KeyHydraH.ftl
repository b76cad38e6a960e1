package h;

import com.bytefacets.collections.exception.InvalidEntryException;
import com.bytefacets.collections.functional.${type.name}Iterator;
import com.bytefacets.collections.queue.${type.name}HydraDeque;
import java.util.NoSuchElementException;
import sx.Sym;

/** A multi-headed deque against one sequence per list. about=13: the sequences; about=14: the entries. */
public final class ${type.name}HydraH {
    private ${type.name}HydraH() {}

    static final class Node {
        ${type.t} value;
        int entry;
    }

    static final class Ctx {
        ${type.name}HydraDeque${type.g} deque;
        Node[][] lists;
        int[] n;
        int size;
        int most;
        int[] free;
        int freeN;
        int nextUnused;
    }

    public static void run() {
        final Ctx c = new Ctx();
        final int lists = Sym.param("lists", 2);
        c.most = Sym.param("most", 3);
        c.deque = new ${type.name}HydraDeque${type.diamond}(Sym.param("queues", 1), Sym.param("cap", 1));
        c.lists = new Node[lists][c.most];
        c.n = new int[lists];
        c.free = new int[c.most];
        while (Sym.cut()) {
            step(c);
        }
    }

    private static void added(final Ctx c, final Node x) {
        for (int l = 0; l < c.n.length; l++) {
            for (int i = 0; i < c.n[l]; i++) {
                Sym.check(c.lists[l][i].entry != x.entry, "no two held elements share an entry");
            }
        }
        if (c.freeN > 0) {
            Sym.cover("recycled");
            Sym.checkEq(x.entry, c.free[--c.freeN], "freed entries are used again, the last one first");
            c.free[c.freeN] = 0;
        } else {
            Sym.checkEq(x.entry, c.nextUnused++, "new entries are taken in order from 0");
        }
    }

    private static void step(final Ctx c) {
        final boolean entries = Sym.param("about", 13) == 14;
        final int op = Sym.choose(entries ? 5 : 6);
        if (op == 4) {
            Sym.cover("cleared");
            c.deque.clear();
            for (int l = 0; l < c.n.length; l++) {
                for (int i = 0; i < c.n[l]; i++) {
                    c.lists[l][i] = null;
                }
                c.n[l] = 0;
            }
            for (int i = 0; i < c.free.length; i++) {
                c.free[i] = 0;
            }
            c.freeN = 0;
            c.nextUnused = 0;
            c.size = 0;
        } else if (op == 5) {
            look(c);
            Sym.prune();
        } else {
            final int l = Sym.choose(c.n.length);
            final Node[] list = c.lists[l];
            switch (op) {
                case 0: {
                    if (c.size == c.most) {
                        Sym.prune();
                    }
                    final Node x = new Node();
                    x.value = ${type.any};
                    x.entry = c.deque.addFirst(l, x.value);
                    Sym.observe(x.entry);
                    if (entries) {
                        added(c, x);
                    } else {
                        x.entry = 0;
                    }
                    for (int i = c.n[l]; i > 0; i--) {
                        list[i] = list[i - 1];
                    }
                    list[0] = x;
                    c.n[l]++;
                    c.size++;
                    break;
                }
                case 1: {
                    if (c.size == c.most) {
                        Sym.prune();
                    }
                    final Node x = new Node();
                    x.value = ${type.any};
                    x.entry = c.deque.addLast(l, x.value);
                    Sym.observe(x.entry);
                    if (entries) {
                        added(c, x);
                    } else {
                        x.entry = 0;
                    }
                    list[c.n[l]++] = x;
                    c.size++;
                    break;
                }
                default: {
                    if (c.n[l] == 0) {
                        if (!entries) {
                            refused(c, l);
                        }
                        Sym.prune();
                    }
                    final Node x = list[op == 2 ? 0 : c.n[l] - 1];
                    if (op == 2) {
                        ${type.check("(" + type.t + ") c.deque.removeFirst(l)", "x.value", "removeFirst")};
                    } else {
                        ${type.check("(" + type.t + ") c.deque.removeLast(l)", "x.value", "removeLast")};
                    }
                    c.n[l]--;
                    for (int i = 0; op == 2 && i < c.n[l]; i++) {
                        list[i] = list[i + 1];
                    }
                    list[c.n[l]] = null;
                    c.size--;
                    if (entries) {
                        c.free[c.freeN++] = x.entry;
                    }
                }
            }
        }
        Sym.checkEq(c.deque.size(), c.size, "size of all lists");
        Sym.checkEq(c.deque.isEmpty(), c.size == 0, "isEmpty");
        for (int l = 0; l < c.n.length; l++) {
            Sym.checkEq(c.deque.size(l), c.n[l], "size of a list");
        }
    }

    private static void refuse(final Ctx c, final int list) {
        boolean thrown = false;
        try {
            c.deque.removeFirst(list);
        } catch (NoSuchElementException e) {
            thrown = true;
        }
        Sym.check(thrown, "removeFirst of an empty or unknown list throws NoSuchElementException");
        thrown = false;
        try {
            c.deque.removeLast(list);
        } catch (NoSuchElementException e) {
            thrown = true;
        }
        Sym.check(thrown, "removeLast of an empty or unknown list throws NoSuchElementException");
        Sym.checkEq(c.deque.size(list), 0, "an empty or unknown list has no values");
        ${type.name}Iterator${type.g} it = c.deque.iterator(list);
        Sym.check(!it.hasNext(), "iteration of an empty or unknown list");
        exhausted(it);
        it = c.deque.reverseIterator(list);
        Sym.check(!it.hasNext(), "reverse iteration of an empty or unknown list");
        exhausted(it);
    }

    private static void refused(final Ctx c, final int l) {
        Sym.cover("refused");
        refuse(c, l);
        look(c);
    }

    private static void exhausted(final ${type.name}Iterator${type.g} it) {
        boolean thrown = false;
        try {
            it.next();
        } catch (InvalidEntryException e) {
            thrown = true;
        } catch (NoSuchElementException e) {
            thrown = true;
        }
        Sym.check(thrown, "an exhausted iterator refuses next");
        Sym.check(!it.hasNext(), "an exhausted iterator has no next");
    }

    private static void look(final Ctx c) {
        final int unknown = Sym.anyInt();
        Sym.assume(unknown < 0 || unknown >= c.n.length);
        Sym.assume(unknown > -100 && unknown < 100);
        refuse(c, unknown);
        ${type.name}Iterator${type.g} f = null;
        ${type.name}Iterator${type.g} r = null;
        if (Sym.choose(2) == 0) {
            f = c.deque.iterator(unknown);
            r = c.deque.reverseIterator(unknown);
        }
        for (int l = 0; l < c.n.length; l++) {
            f = c.deque.iterator(l, f);
            for (int i = 0; i < c.n[l]; i++) {
                Sym.check(f.hasNext(), "an iterator has all values of the list");
                ${type.check("(" + type.t + ") f.next()", "c.lists[l][i].value", "iteration goes from head to tail")};
            }
            Sym.check(!f.hasNext(), "an iterator has no more values than the list");
            exhausted(f);
            r = c.deque.reverseIterator(l, r);
            for (int i = c.n[l] - 1; i >= 0; i--) {
                Sym.check(r.hasNext(), "a reverse iterator has all values of the list");
                ${type.check("(" + type.t + ") r.next()", "c.lists[l][i].value", "reverse iteration goes from tail to head")};
                if (i == 1) {
                    r = c.deque.reverseIterator(l, r); // restarts
                    Sym.check(r.hasNext(), "a restarted iterator starts over");
                    ${type.check("(" + type.t + ") r.next()", "c.lists[l][c.n[l] - 1].value", "a restarted iterator starts over")};
                    while (r.hasNext()) {
                        r.next();
                    }
                    break;
                }
            }
            Sym.check(!r.hasNext(), "a reverse iterator has no more values than the list");
            exhausted(r);
        }
    }
}
