package h;

import com.bytefacets.collections.functional.${type.name}Consumer;
import com.bytefacets.collections.queue.${type.name}Deque;
import java.util.NoSuchElementException;
import sx.Sym;

/** A deque against a sequence. */
public final class ${type.name}DequeH {
    private ${type.name}DequeH() {}

    static final class Ctx implements ${type.name}Consumer${type.g} {
        ${type.name}Deque${type.g} deque;
        ${type.t}[] model;
        int n;
        int seen;

        @Override
        public void accept(final ${type.t} v) {
            Sym.check(seen < n, "forEach yields no more than there is");
            ${type.check("v", "model[seen]", "forEach goes from head to tail")};
            seen++;
        }
    }

    public static void run() {
        final Ctx c = new Ctx();
        c.deque = new ${type.name}Deque${type.diamond}(Sym.param("cap", 1));
        c.model = new ${type.t}[Sym.param("most", 5)];
        while (Sym.cut()) {
            step(c);
        }
    }

    private static void step(final Ctx c) {
        switch (Sym.choose(6)) {
            case 0: {
                if (c.n == c.model.length) {
                    Sym.prune();
                }
                final ${type.t} v = ${type.any};
                for (int i = c.n; i > 0; i--) {
                    c.model[i] = c.model[i - 1];
                }
                c.model[0] = v;
                c.n++;
                c.deque.addFirst(v);
                break;
            }
            case 1: {
                if (c.n == c.model.length) {
                    Sym.prune();
                }
                final ${type.t} v = ${type.any};
                c.model[c.n++] = v;
                c.deque.addLast(v);
                break;
            }
            case 2: {
                if (c.n == 0) {
                    empty(c);
                    Sym.prune();
                }
                ${type.check("(" + type.t + ") c.deque.removeFirst()", "c.model[0]", "removeFirst")};
                c.n--;
                for (int i = 0; i < c.n; i++) {
                    c.model[i] = c.model[i + 1];
                }
                c.model[c.n] = ${type.zero};
                break;
            }
            case 3: {
                if (c.n == 0) {
                    empty(c);
                    Sym.prune();
                }
                c.n--;
                ${type.check("(" + type.t + ") c.deque.removeLast()", "c.model[c.n]", "removeLast")};
                c.model[c.n] = ${type.zero};
                break;
            }
            case 4: {
                Sym.cover("cleared");
                c.deque.clear();
                for (int i = 0; i < c.n; i++) {
                    c.model[i] = ${type.zero};
                }
                c.n = 0;
                break;
            }
            default: {
                c.seen = 0;
                c.deque.forEach(c);
                Sym.checkEq(c.seen, c.n, "forEach yields everything");
                for (int i = 0; i < c.n; i++) {
                    ${type.check("(" + type.t + ") c.deque.removeFirst()", "c.model[i]", "draining from the front")};
                }
                Sym.check(c.deque.isEmpty(), "empty after draining");
                Sym.prune();
            }
        }
        Sym.checkEq(c.deque.size(), c.n, "size");
        Sym.checkEq(c.deque.isEmpty(), c.n == 0, "isEmpty");
        if (c.n > 0) {
            ${type.check("(" + type.t + ") c.deque.peekFirst()", "c.model[0]", "peekFirst")};
            ${type.check("(" + type.t + ") c.deque.peekLast()", "c.model[c.n - 1]", "peekLast")};
        }
    }

    /** An empty deque refuses and stays what it is. */
    private static void empty(final Ctx c) {
        Sym.cover("empty");
        for (int i = 0; i < 4; i++) {
            boolean thrown = false;
            try {
                switch (i) {
                    case 0: c.deque.removeFirst(); break;
                    case 1: c.deque.removeLast(); break;
                    case 2: c.deque.peekFirst(); break;
                    default: c.deque.peekLast(); break;
                }
            } catch (NoSuchElementException e) {
                thrown = true;
            }
            Sym.check(thrown, "an empty deque throws NoSuchElementException");
            Sym.checkEq(c.deque.size(), 0, "a refused call changes nothing");
        }
        final ${type.t} a = ${type.any};
        final ${type.t} b = ${type.any};
        c.deque.addFirst(a);
        c.deque.addLast(b);
        ${type.check("(" + type.t + ") c.deque.peekFirst()", "a", "the first after a refused call")};
        ${type.check("(" + type.t + ") c.deque.removeLast()", "b", "the last after a refused call")};
        ${type.check("(" + type.t + ") c.deque.removeLast()", "a", "the only one after a refused call")};
        Sym.check(c.deque.isEmpty(), "empty again after a refused call");
    }
}
