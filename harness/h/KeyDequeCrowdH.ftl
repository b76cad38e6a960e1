package h;

import com.bytefacets.collections.queue.${type.name}Deque;
import sx.Sym;

/** A deque with many values, all of them any at all, of which any number is taken out in between. */
public final class ${type.name}DequeCrowdH {
    private ${type.name}DequeCrowdH() {}

    private static ${type.name}Deque${type.g} deque;
    private static ${type.t}[] model;
    private static int head;
    private static int tail;

    public static void run() {
        final int n = Sym.param("n", 40);
        deque = new ${type.name}Deque${type.diamond}(Sym.param("cap", 1));
        model = new ${type.t}[8 * n];
        head = 4 * n;
        tail = head;
        final int fill = Sym.choose(4);
        for (int i = 0; i < n; i++) {
            add(fill == 1 || fill == 2 && i % 2 == 0 || fill == 3 && i % 5 < 2);
        }
        look();
        final int left = Sym.range(0, n); // what is to be left
        final int take = Sym.choose(3);
        for (int i = 0; tail - head > left; i++) {
            remove(take == 1 || take == 2 && i % 3 != 0);
        }
        look();
        switch (Sym.choose(4)) {
            case 0:
                break;
            case 1:
                deque.clear();
                head = 4 * n;
                tail = head;
                look();
                break;
            case 2: // round and round
                for (int i = 0; i < n; i++) {
                    add(false);
                    remove(true);
                }
                look();
                break;
            default:
                for (int i = 0; i < n; i++) {
                    add(true);
                    remove(false);
                }
                look();
                break;
        }
        for (int i = 0; i < 2 * n; i++) {
            add(i % 7 == 3);
        }
        look();
        while (tail > head) {
            remove(tail % 2 == 0);
        }
        look();
        Sym.cover("drained");
    }

    private static void add(final boolean first) {
        final ${type.t} v = ${type.any};
        if (first) {
            model[--head] = v;
            deque.addFirst(v);
        } else {
            model[tail++] = v;
            deque.addLast(v);
        }
    }

    private static void remove(final boolean first) {
        if (tail == head) {
            return;
        }
        if (first) {
            ${type.check("(" + type.t + ") deque.peekFirst()", "model[head]", "peekFirst")};
            ${type.check("(" + type.t + ") deque.removeFirst()", "model[head]", "removeFirst")};
            head++;
        } else {
            tail--;
            ${type.check("(" + type.t + ") deque.peekLast()", "model[tail]", "peekLast")};
            ${type.check("(" + type.t + ") deque.removeLast()", "model[tail]", "removeLast")};
        }
        Sym.checkEq(deque.size(), tail - head, "size");
    }

    private static void look() {
        Sym.checkEq(deque.size(), tail - head, "size");
        Sym.checkEq(deque.isEmpty(), tail == head, "isEmpty");
        final int[] seen = new int[1];
        deque.forEach(v -> {
            Sym.check(head + seen[0] < tail, "forEach yields no more than there is");
            ${type.check("v", "model[head + seen[0]]", "forEach goes from head to tail")};
            seen[0]++;
        });
        Sym.checkEq(seen[0], tail - head, "forEach yields everything");
    }
}
