package h;

import com.bytefacets.collections.store.${type.name}ChunkStore;
import sx.Sym;

/** A chunked store against a map from indexes to values. */
public final class ${type.name}StoreH {
    private ${type.name}StoreH() {}

    static final class Item {
        int index;
        boolean set;
        ${type.t} value;
    }

    static final class Ctx {
        ${type.name}ChunkStore${type.g} store;
        Item[] items;
        int capacity;
    }

    public static void run() {
        if (Sym.param("large", 0) == 1) {
            large();
            return;
        }
        final Ctx c = new Ctx();
        c.store = new ${type.name}ChunkStore${type.diamond}(Sym.choose(Sym.param("initial", 5)), 1 + Sym.choose(Sym.param("chunks", 5)));
        c.capacity = c.store.getCapacity();
        Sym.check(c.capacity >= 0, "the capacity of a new store");
        c.items = new Item[Sym.param("items", 2)];
        for (int i = 0; i < c.items.length; i++) {
            c.items[i] = new Item();
            c.items[i].index = Sym.choose(Sym.param("to", 9));
            for (int j = 0; j < i; j++) {
                Sym.assume(c.items[i].index != c.items[j].index);
            }
        }
        Sym.bag(c.items);
        while (Sym.cut()) {
            step(c);
        }
    }

    private static void capacity(final Ctx c) {
        final int now = c.store.getCapacity();
        Sym.check(now >= c.capacity, "the capacity never shrinks");
        c.capacity = now;
        for (Item it : c.items) {
            Sym.check(!it.set || it.index < now, "the capacity is enough for what was set");
        }
    }

    private static void step(final Ctx c) {
        if (Sym.choose(2) == 0) {
            final Item it = c.items[Sym.choose(c.items.length)];
            it.value = ${type.any};
            it.set = true;
            c.store.set${type.name}(it.index, it.value);
            capacity(c);
        } else {
            final int probe = Sym.choose(2 * Sym.param("to", 9));
            final ${type.t} got = c.store.get${type.name}(probe);
            for (Item it : c.items) {
                if (it.set && it.index == probe) {
                    ${type.check("got", "it.value", "the value last set at an index")};
                    Sym.cover("value read");
                    Sym.prune();
                }
            }
            Sym.cover("default read");
            ${type.check("got", type.zero, "the default where nothing was set")};
            Sym.checkEq(c.store.getCapacity(), c.capacity, "reading does not grow the store");
            Sym.prune();
        }
    }

    /** Few chunks of hundreds of millions of elements: every index there is. */
    private static void large() {
        final int[] chunks = {(1 << 29) + 1, 1 << 29, 1 << 28, 300_000_000};
        final int[] initials = {1, 0, 1 << 29, (1 << 29) + 1, Integer.MAX_VALUE};
        final ${type.name}ChunkStore${type.g} s;
        final int a = Sym.anyInt();
        final int b = Sym.anyInt();
        final int probe = Sym.anyInt();
        Sym.assume(a >= 0);
        Sym.assume(b >= 0);
        Sym.assume(probe >= 0);
        final ${type.t} x = ${type.any};
        final ${type.t} y = ${type.any};
        try {
            s = new ${type.name}ChunkStore${type.diamond}(initials[Sym.choose(initials.length)], chunks[Sym.choose(chunks.length)]);
            int capacity = s.getCapacity();
            Sym.check(capacity >= 0, "the capacity of a new store");
            s.set${type.name}(a, x);
            Sym.check(s.getCapacity() >= capacity, "the capacity never shrinks");
            Sym.check(s.getCapacity() > a || a == Integer.MAX_VALUE, "the capacity is enough for what was set");
            capacity = s.getCapacity();
            s.set${type.name}(b, y);
            Sym.check(s.getCapacity() >= capacity, "the capacity never shrinks");
            Sym.check(s.getCapacity() > b || b == Integer.MAX_VALUE, "the capacity is enough for what was set");
            capacity = s.getCapacity();
            final ${type.t} got = s.get${type.name}(probe);
            Sym.checkEq(s.getCapacity(), capacity, "reading does not grow the store");
            if (probe == b) {
                ${type.check("got", "y", "the value last set at an index")};
            } else if (probe == a) {
                ${type.check("got", "x", "the value last set at an index")};
            } else {
                ${type.check("got", type.zero, "the default where nothing was set")};
            }
            Sym.cover("any index");
        } catch (OutOfMemoryError e) {
            Sym.prune();
        }
    }
}
