package h;

import com.bytefacets.collections.exception.InitializationException;
import com.bytefacets.collections.exception.RangeCheckException;
import com.bytefacets.collections.store.${type.name}ChunkMatrixStore;
import sx.Sym;

/** A chunked matrix store against a map from cells to values. */
public final class ${type.name}MatrixH {
    private ${type.name}MatrixH() {}

    static final class Item {
        int row;
        int field;
        boolean set;
        ${type.t} value;
    }

    static final class Ctx {
        ${type.name}ChunkMatrixStore${type.g} store;
        Item[] items;
        int fields;
        int capacity;
    }

    public static void run() {
        switch (Sym.param("mode", 0)) {
            case 1:
                large();
                break;
            case 2:
                refuse();
                break;
            default:
                small();
                break;
        }
    }

    private static void small() {
        final Ctx c = new Ctx();
        final int initial = 1 + 2 * Sym.choose(Sym.param("initials", 2));
        final int chunk = new int[] {3, 2, 5, 4}[Sym.choose(Sym.param("chunks", 3))];
        c.fields = new int[] {3, 1, 2, 4, 5}[Sym.choose(Sym.param("fields", 3))];
        c.store = new ${type.name}ChunkMatrixStore${type.diamond}(initial, chunk, c.fields);
        c.capacity = c.store.getCapacity();
        Sym.check(c.capacity >= initial, "the capacity of a new store is at least what was asked for");
        c.items = new Item[Sym.param("items", 2)];
        final int rows = Sym.param("to", 5);
        for (int i = 0; i < c.items.length; i++) {
            c.items[i] = new Item();
            c.items[i].row = Sym.choose(rows);
            c.items[i].field = Sym.choose(c.fields);
            for (int j = 0; j < i; j++) {
                Sym.assume(c.items[i].row != c.items[j].row || c.items[i].field != c.items[j].field);
            }
        }
        Sym.bag(c.items);
        while (Sym.cut()) {
            step(c, rows);
        }
    }

    private static void capacity(final Ctx c) {
        final int now = c.store.getCapacity();
        Sym.check(now >= c.capacity, "the capacity never shrinks");
        c.capacity = now;
        for (Item it : c.items) {
            Sym.check(!it.set || it.row < now, "the capacity is enough for what was set");
        }
    }

    private static void step(final Ctx c, final int rows) {
        switch (Sym.choose(3)) {
            case 0: {
                final Item it = c.items[Sym.choose(c.items.length)];
                it.value = ${type.any};
                it.set = true;
                c.store.set${type.name}(it.row, it.field, it.value);
                capacity(c);
                break;
            }
            case 1: {
                final int row = Sym.choose(rows + c.capacity + 1);
                final int field = Sym.choose(c.fields);
                final ${type.t} got = c.store.get${type.name}(row, field);
                Sym.checkEq(c.store.getCapacity(), c.capacity, "reading does not grow the store");
                for (Item it : c.items) {
                    if (it.set && it.row == row && it.field == field) {
                        ${type.check("got", "it.value", "the value last set in a cell")};
                        Sym.cover("value read");
                        Sym.prune();
                    }
                }
                Sym.cover("default read");
                ${type.check("got", type.zero, "the default where nothing was set")};
                Sym.prune();
                break;
            }
            default: {
                final int row = Sym.choose(rows + c.capacity + 1);
                final int field = Sym.anyInt();
                Sym.assume(field < 0 || field >= c.fields);
                refused(c.store, row, field, Sym.choose(2) == 0);
                Sym.checkEq(c.store.getCapacity(), c.capacity, "a refused call does not grow the store");
                Sym.cover("field refused");
                for (Item it : c.items) {
                    if (it.set) {
                        ${type.check("c.store.get" + type.name + "(it.row, it.field)", "it.value", "a refused call changes no value")};
                    }
                }
                Sym.prune();
                break;
            }
        }
    }

    private static void refused(final ${type.name}ChunkMatrixStore${type.g} s, final int row, final int field, final boolean get) {
        try {
            if (get) {
                s.get${type.name}(row, field);
            } else {
                s.set${type.name}(row, field, ${type.any});
            }
        } catch (RangeCheckException e) {
            return;
        }
        Sym.fail("a field out of range is refused");
    }

    /** Few chunks of hundreds of millions of elements: every row and every field there is. */
    private static void large() {
        final int[] chunks = {(1 << 29) + 1, 300_000_000, 1 << 30, (1 << 29) + 1};
        final int[] fields = {3, 1, 8, (1 << 30) + 7};
        final int[] mostRow = {(1 << 30) + 12345, Integer.MAX_VALUE, (1 << 28) + (1 << 27) + 12345, 3};
        final int[] initials = {1, 1 << 28, 2, 1};
        final int k = Sym.param("config", 0);
        final int n = fields[k];
        final int chunk = chunks[k];
        final int r1 = row(k, mostRow[k]);
        final int r2 = row(k, mostRow[k]);
        final int r3 = k == 3 ? Sym.choose(2 * mostRow[k]) : row(k, Integer.MAX_VALUE);
        final int f1 = field(n);
        final int f2 = field(n);
        final int f3 = field(n);
        final ${type.t} x = ${type.any};
        final ${type.t} y = ${type.any};
        try {
            final ${type.name}ChunkMatrixStore${type.g} s = new ${type.name}ChunkMatrixStore${type.diamond}(initials[k], chunk, n);
            int capacity = s.getCapacity();
            Sym.check(capacity >= initials[k], "the capacity of a new store is at least what was asked for");
            s.set${type.name}(r1, f1, x);
            Sym.check(s.getCapacity() >= capacity, "the capacity never shrinks");
            Sym.check(s.getCapacity() > r1 || r1 == Integer.MAX_VALUE, "the capacity is enough for what was set");
            capacity = s.getCapacity();
            s.set${type.name}(r2, f2, y);
            Sym.check(s.getCapacity() >= capacity, "the capacity never shrinks");
            Sym.check(s.getCapacity() > r2 || r2 == Integer.MAX_VALUE, "the capacity is enough for what was set");
            capacity = s.getCapacity();
            final ${type.t} got = s.get${type.name}(r3, f3);
            Sym.checkEq(s.getCapacity(), capacity, "reading does not grow the store");
            if (Sym.and(r3 == r2, f3 == f2)) {
                ${type.check("got", "y", "the value last set in a cell")};
            } else if (Sym.and(r3 == r1, f3 == f1)) {
                ${type.check("got", "x", "the value last set in a cell")};
            } else {
                ${type.check("got", type.zero, "the default where nothing was set")};
            }
            Sym.cover("any cell");
        } catch (OutOfMemoryError e) {
            Sym.prune();
        }
    }

    private static int row(final int config, final int most) {
        if (config == 3) {
            return Sym.choose(most + 1);
        }
        final int r = Sym.anyInt();
        Sym.assume(r >= 0);
        Sym.assume(r <= most);
        return r;
    }

    private static int field(final int n) {
        final int f = Sym.anyInt();
        Sym.assume(f >= 0);
        Sym.assume(f < n);
        return f;
    }

    /** Constructor arguments: illegal ones are refused, others are not. */
    private static void refuse() {
        int initial = Sym.anyInt();
        int chunk = Sym.anyInt();
        int n = Sym.anyInt();
        final boolean legal = Sym.and(initial >= 1, Sym.and(chunk >= 2, n >= 1));
        if (legal) {
            initial = 1 + Sym.choose(4);
            chunk = 2 + Sym.choose(4);
            n = 1 + Sym.choose(4);
        } else { // so that what should be refused can be made
            Sym.assume(initial < 6);
            Sym.assume(chunk < 6);
            Sym.assume(n < 6);
        }
        boolean refused = false;
        try {
            new ${type.name}ChunkMatrixStore${type.diamond}(initial, chunk, n);
        } catch (InitializationException e) {
            refused = true;
        }
        Sym.cover(refused ? "refused" : "accepted");
        Sym.check(refused != legal, "constructor arguments out of range are refused, and only those");
    }
}
