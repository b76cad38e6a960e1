package h;

import com.bytefacets.collections.EntryIterator;
import com.bytefacets.collections.hash.${type.name}IndexedSet;
import com.bytefacets.collections.hash.${type.name}${type.name}IndexedMap;
import com.bytefacets.collections.heap.${type.name}${type.name}Heap;
import com.bytefacets.collections.queue.${type.name}Deque;
import com.bytefacets.collections.queue.${type.name}HydraDeque;
import com.bytefacets.collections.store.${type.name}ChunkMatrixStore;
import com.bytefacets.collections.store.${type.name}ChunkStore;
import com.bytefacets.collections.vector.${type.name}Vector;
import sx.Sym;

<#assign pair = type.generic?string("<Object, Object>", "")>
/** What a collection of objects still refers to. */
public final class ${type.name}RetainH {
    private ${type.name}RetainH() {}

    /** An object of the pool, as key and value of itself. */
    static final class Item {
        ${type.t} k;
        ${type.t} v;
        boolean present;
        boolean reserved;
        boolean valued; // the collection may refer to v
        int entry = -1;
    }

    static final class Ctx {
        int kind;
        Object root;
        ${type.name}IndexedSet${type.g} set;
        ${type.name}IndexedSet${type.g} otherSet;
        ${type.name}${type.name}IndexedMap${pair} map;
        ${type.name}${type.name}IndexedMap${pair} otherMap;
        ${type.name}${type.name}Heap${pair} heap;
        ${type.name}Deque${type.g} deque;
        ${type.name}HydraDeque${type.g} hydra;
        ${type.name}Vector${type.g} vector;
        ${type.name}ChunkStore${type.g} store;
        ${type.name}ChunkMatrixStore${type.g} matrix;
        Item[] pool;
    }

    public static void run() {
        final Ctx c = new Ctx();
        c.kind = Sym.param("kind", 0);
        final int n = Sym.param("objects", 3);
        c.pool = new Item[n];
        for (int i = 0; i < n; i++) {
            final Item it = new Item();
            it.k = c.kind < 3 ? ${type.any} : ${type.of("i", "0")};
            it.v = ${type.of("i + 50", "0")};
            c.pool[i] = it;
            for (int j = 0; c.kind < 3 && j < i; j++) {
                Sym.assume(!${type.eq("it.k", "c.pool[j].k")});
            }
        }
        switch (c.kind) {
            case 0:
                c.root = c.set = new ${type.name}IndexedSet${type.diamond}(1);
                c.otherSet = new ${type.name}IndexedSet${type.diamond}(Sym.param("other", 1));
                break;
            case 1:
                c.root = c.map = new ${type.name}${type.name}IndexedMap${type.diamond}(1);
                c.otherMap = new ${type.name}${type.name}IndexedMap${type.diamond}(Sym.param("other", 1));
                break;
            case 2:
                c.root = c.heap = new ${type.name}${type.name}Heap${type.diamond}(1);
                break;
            case 3:
                c.root = c.deque = new ${type.name}Deque${type.diamond}(1);
                break;
            case 4:
                c.root = c.hydra = new ${type.name}HydraDeque${type.diamond}(1, 1);
                break;
            case 5:
                c.root = c.vector = new ${type.name}Vector${type.diamond}(1);
                break;
            case 6:
                c.root = c.store = new ${type.name}ChunkStore${type.diamond}(1, 2);
                break;
            default:
                c.root = c.matrix = new ${type.name}ChunkMatrixStore${type.diamond}(1, 2, 3);
                break;
        }
        Sym.bag(c.pool);
        while (Sym.cut()) {
            step(c);
            for (Item it : c.pool) {
                if (!it.present && !it.reserved) {
                    Sym.check(!Sym.reachable(c.root, it.k), "what was removed is let go");
                    if (c.kind == 1 || c.kind == 2) {
                        Sym.check(!Sym.reachable(c.root, it.v), "the value of what was removed is let go");
                    }
                } else if (!it.valued) {
                    Sym.check(!Sym.reachable(c.root, it.v), "a value that was replaced is let go");
                }
            }
        }
    }

    private static void step(final Ctx c) {
        switch (c.kind) {
            case 0:
            case 1:
                hash(c);
                break;
            case 2:
                heap(c);
                break;
            case 3:
                deque(c);
                break;
            case 4:
                hydra(c);
                break;
            case 5:
                vector(c);
                break;
            default:
                store(c);
                break;
        }
    }

    private static void none(final Ctx c) {
        for (Item it : c.pool) {
            it.present = false;
            it.reserved = false;
            it.valued = false;
            it.entry = -1;
        }
        Sym.cover("cleared");
    }

    private static Item any(final Ctx c, final boolean present) {
        final Item it = c.pool[Sym.choose(c.pool.length)];
        if (it.present != present) {
            Sym.prune();
        }
        return it;
    }

    private static Item gone(final Item it) {
        it.present = false;
        it.valued = false;
        it.entry = -1;
        Sym.cover("removed");
        return it;
    }

    private static void gone(final Ctx c, final Object k) {
        for (Item it : c.pool) {
            if (it.k == k) {
                gone(it);
                return;
            }
        }
        Sym.fail("removed something that was not there");
    }

    private static void hash(final Ctx c) {
        final boolean map = c.kind == 1;
        switch (Sym.choose(9)) {
            case 0: {
                final Item it = any(c, false);
                if (it.reserved) {
                    Sym.prune();
                }
                if (map && Sym.choose(2) == 0) {
                    it.valued = true;
                    it.entry = c.map.put(it.k, it.v);
                } else {
                    it.entry = map ? c.map.add(it.k) : c.set.add(it.k);
                }
                it.present = true;
                break;
            }
            case 1: {
                final Item it = any(c, true);
                if (map) {
                    c.map.remove(it.k);
                } else {
                    c.set.remove(it.k);
                }
                gone(it);
                break;
            }
            case 2: {
                final Item it = any(c, true);
                if (map) {
                    c.map.removeAt(it.entry);
                } else {
                    c.set.removeAt(it.entry);
                }
                gone(it);
                break;
            }
            case 3: {
                final EntryIterator i = map ? c.map.iterator() : c.set.iterator();
                int left = Sym.choose(c.pool.length) + 1;
                while (left > 0 && i.next()) {
                    left--;
                }
                if (left > 0) {
                    Sym.prune();
                }
                final int e = i.currentEntry();
                i.remove();
                if (Sym.choose(2) == 0) {
                    i.next();
                }
                for (Item it : c.pool) {
                    if (it.present && it.entry == e) {
                        gone(it);
                        Sym.cover("removed through an iterator");
                    }
                }
                break;
            }
            case 4:
                if (map) {
                    c.map.clear();
                } else {
                    c.set.clear();
                }
                none(c);
                break;
            case 5: {
                final Item it = any(c, true);
                if (map) {
                    c.map.removeAtAndReserve(it.entry);
                } else {
                    c.set.removeAtAndReserve(it.entry);
                }
                it.present = false;
                it.reserved = true;
                break;
            }
            case 6: {
                final Item it = c.pool[Sym.choose(c.pool.length)];
                if (!it.reserved) {
                    Sym.prune();
                }
                if (map) {
                    c.map.freeReservedEntry(it.entry);
                } else {
                    c.set.freeReservedEntry(it.entry);
                }
                it.reserved = false;
                gone(it);
                break;
            }
            case 7: {
                if (!map) {
                    Sym.prune();
                }
                final Item it = any(c, true);
                if (it.valued) {
                    it.valued = false;
                    final ${type.t} other = ${type.of("7", "0")};
                    switch (Sym.choose(2)) {
                        case 0:
                            c.map.put(it.k, other);
                            break;
                        default:
                            c.map.putValueAt(it.entry, other);
                            break;
                    }
                } else {
                    it.valued = true;
                    c.map.putValueAt(it.entry, it.v);
                }
                break;
            }
            default:
                if (map) {
                    c.map.copyFrom(c.otherMap);
                } else {
                    c.set.copyFrom(c.otherSet);
                }
                none(c);
                Sym.cover("copied");
                break;
        }
    }

    private static void heap(final Ctx c) {
        switch (Sym.choose(6)) {
            case 0: {
                final Item it = any(c, false);
                it.entry = c.heap.insert(it.k, it.v);
                it.valued = true;
                it.present = true;
                break;
            }
            case 1: {
                final Item it = any(c, true);
                c.heap.removeAt(it.entry);
                gone(it);
                break;
            }
            case 2: {
                if (c.heap.isEmpty()) {
                    Sym.prune();
                }
                final int e = c.heap.peek();
                c.heap.removeAt(e);
                for (Item it : c.pool) {
                    if (it.present && it.entry == e) {
                        gone(it);
                    }
                }
                break;
            }
            case 3:
                c.heap.clear();
                none(c);
                break;
            case 4: {
                final Item it = any(c, true);
                final Item other = any(c, false);
                c.heap.resetKey(it.entry, other.k);
                c.heap.setValueAt(it.entry, other.v);
                other.present = true;
                other.valued = true;
                other.entry = it.entry;
                gone(it);
                break;
            }
            default: {
                final Item it = any(c, true);
                c.heap.setValueAt(it.entry, ${type.of("7", "0")});
                it.valued = false;
                break;
            }
        }
    }

    private static void deque(final Ctx c) {
        switch (Sym.choose(5)) {
            case 0:
            case 1: {
                final Item it = any(c, false);
                it.present = true;
                if (Sym.choose(2) == 0) {
                    c.deque.addFirst(it.k);
                } else {
                    c.deque.addLast(it.k);
                }
                break;
            }
            case 2:
                if (c.deque.isEmpty()) {
                    Sym.prune();
                }
                gone(c, c.deque.removeFirst());
                break;
            case 3:
                if (c.deque.isEmpty()) {
                    Sym.prune();
                }
                gone(c, c.deque.removeLast());
                break;
            default:
                c.deque.clear();
                none(c);
                break;
        }
    }

    private static void hydra(final Ctx c) {
        final int l = Sym.choose(2);
        switch (Sym.choose(4)) {
            case 0: {
                final Item it = any(c, false);
                it.present = true;
                if (Sym.choose(2) == 0) {
                    c.hydra.addFirst(l, it.k);
                } else {
                    c.hydra.addLast(l, it.k);
                }
                break;
            }
            case 1:
                if (c.hydra.size(l) == 0) {
                    Sym.prune();
                }
                gone(c, c.hydra.removeFirst(l));
                break;
            case 2:
                if (c.hydra.size(l) == 0) {
                    Sym.prune();
                }
                gone(c, c.hydra.removeLast(l));
                break;
            default:
                c.hydra.clear();
                none(c);
                break;
        }
    }

    private static void vector(final Ctx c) {
        if (Sym.choose(2) == 0) {
            final Item it = any(c, false);
            it.present = true;
            c.vector.append(it.k);
        } else {
            c.vector.clear();
            none(c);
        }
    }

    private static void put(final Ctx c, final int at, final ${type.t} v) {
        if (c.kind == 6) {
            c.store.set${type.name}(at, v);
        } else {
            c.matrix.set${type.name}(at / 3, at % 3, v);
        }
    }

    private static void store(final Ctx c) {
        final int at = Sym.choose(5);
        ${type.t} next = null;
        if (Sym.choose(2) == 0) {
            final Item it = any(c, false);
            it.present = true;
            it.entry = at;
            next = it.k;
        }
        for (Item it : c.pool) {
            if (it.present && it.entry == at && it.k != next) {
                gone(it);
            }
        }
        put(c, at, next);
    }
}
