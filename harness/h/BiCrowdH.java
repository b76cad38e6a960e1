package h;

import com.bytefacets.collections.bi.CompactManyToMany;
import com.bytefacets.collections.bi.CompactOneToMany;
import com.bytefacets.collections.bi.Mapping;
import sx.Sym;

/** A relation with many pairs, one of which may be any within the range of the keys. */
public final class BiCrowdH {
    private BiCrowdH() {}

    static final class Ctx {
        CompactOneToMany one;
        CompactManyToMany many;
        boolean counts;
        int lefts;
        int rights;
        boolean[][] in; // by left and right
        int[][] entry;
        int size;
        int most;
        int held;
    }

    public static void run() {
        final Ctx c = new Ctx();
        c.lefts = Sym.param("lefts", 7);
        c.rights = Sym.param("rights", 6);
        c.counts = Sym.param("counts", 1) == 1;
        final int cap = Sym.param("cap", 1);
        if (Sym.param("many", 0) == 1) {
            c.many = new CompactManyToMany(cap, cap, cap, c.counts);
            c.one = c.many;
        } else {
            c.one = new CompactOneToMany(cap, cap, c.counts);
        }
        c.in = new boolean[c.lefts][c.rights];
        c.entry = new int[c.lefts][c.rights];
        final int x = Sym.range(0, c.lefts - 1);
        final int y = Sym.range(0, c.rights - 1);
        final int order = Sym.choose(3);
        if (order == 0) {
            put(c, x, y);
        }
        for (int i = 0; i < c.lefts; i++) {
            for (int j = 0; j < c.rights; j++) {
                final int r = order == 2 ? c.rights - 1 - j : j;
                if ((i * 3 + r * 5) % 4 != 1) {
                    put(c, i, r);
                }
            }
        }
        put(c, x, y);
        final int pattern = Sym.choose(5);
        final int how = Sym.choose(Sym.param("reserve", 0) == 1 ? 4 : 3);
        final int[] held = new int[c.lefts * c.rights];
        for (int i = 0; i < c.lefts; i++) {
            for (int j = 0; j < c.rights; j++) {
                if (out(pattern, i, j, x, y)) {
                    remove(c, i, j, how, held);
                }
            }
        }
        if (how != 2) {
            all(c);
        }
        for (int j = c.rights - 1; j >= 0; j--) {
            for (int i = 0; i < c.lefts; i++) {
                if ((i + j) % 3 != 0) {
                    put(c, i, j);
                }
            }
        }
        for (int k = 0; k < c.held; k++) {
            for (int i = 0; i < c.lefts; i++) {
                for (int j = 0; j < c.rights; j++) {
                    Sym.check(!c.in[i][j] || c.entry[i][j] != held[k], "a reserved entry is not handed out");
                }
            }
            c.one.freeReservedEntry(held[k]);
        }
        c.held = 0;
        remove(c, x, y, 1, held);
        all(c);
        Sym.cover("done");
    }

    /** Nothing, every other pair, one left, one right, everything but one pair. */
    private static boolean out(final int pattern, final int i, final int j, final int x, final int y) {
        return pattern == 1 && (i + j) % 2 == 0 || pattern == 2 && i == x || pattern == 3 && j == y || pattern == 4 && !(i == x && j == y);
    }

    private static void put(final Ctx c, final int l, final int r) {
        final int e = c.one.put(l, r);
        if (c.in[l][r]) {
            Sym.checkEq(e, c.entry[l][r], "putting a present pair returns its entry");
            return;
        }
        c.size++;
        c.most = Math.max(c.most, c.size + c.held);
        Sym.check(e >= 0 && e < c.most, "entries are used again");
        c.in[l][r] = true;
        c.entry[l][r] = e;
    }

    private static void remove(final Ctx c, final int l, final int r, final int how, final int[] held) {
        if (!c.in[l][r]) {
            Sym.checkEq(c.one.remove(l, r), -1, "removing an absent pair");
            return;
        }
        if (how == 0) {
            Sym.checkEq(c.one.remove(l, r), c.entry[l][r], "remove returns the entry");
        } else if (how == 3) {
            c.one.removeAtAndReserve(c.entry[l][r]);
            held[c.held++] = c.entry[l][r];
        } else {
            Sym.checkEq(c.one.removeAt(c.entry[l][r]), c.entry[l][r], "removeAt returns the entry");
        }
        c.in[l][r] = false;
        c.entry[l][r] = -1;
        c.size--;
    }

    private static void all(final Ctx c) {
        Sym.checkEq(c.one.size(), c.size, "size");
        int n = 0;
        for (int i = 0; i < c.lefts; i++) {
            for (int j = 0; j < c.rights; j++) {
                Sym.checkEq(c.one.contains(i, j), c.in[i][j], "contains");
                if (c.in[i][j]) {
                    n++;
                    final int e = c.one.lookupEntry(i, j);
                    Sym.checkEq(e, c.entry[i][j], "lookupEntry");
                    Sym.checkEq(c.one.getLeftAt(e), i, "getLeftAt");
                    Sym.checkEq(c.one.getRightAt(e), j, "getRightAt");
                }
            }
        }
        Sym.checkEq(n, c.size, "size");
        for (int i = -1; i <= c.lefts; i++) {
            side(c, i, true, c.one.withLeft(i));
        }
        if (c.many != null) {
            for (int j = -1; j <= c.rights; j++) {
                side(c, j, false, c.many.withRight(j));
            }
        }
        final int[] calls = new int[1];
        c.one.forEachEntry(e -> {
            calls[0]++;
            Sym.checkEq(c.entry[c.one.getLeftAt(e)][c.one.getRightAt(e)], e, "forEachEntry yields the entries of pairs");
        });
        Sym.checkEq(calls[0], c.size, "forEachEntry yields every pair");
    }

    private static void side(final Ctx c, final int key, final boolean left, final Mapping m) {
        final int others = left ? c.rights : c.lefts;
        final boolean known = key >= 0 && key < (left ? c.lefts : c.rights);
        final boolean[] seen = new boolean[others];
        final int[] calls = new int[1];
        m.forEachValue(v -> {
            Sym.check(known && (left ? c.in[key][v] : c.in[v][key]), "a traversal yields only present pairs");
            Sym.check(!seen[v], "a traversal yields no pair twice");
            seen[v] = true;
            calls[0]++;
        });
        int n = 0;
        for (int k = 0; known && k < others; k++) {
            n += (left ? c.in[key][k] : c.in[k][key]) ? 1 : 0;
        }
        Sym.checkEq(calls[0], n, "a traversal yields every pair");
        if (c.counts) {
            Sym.checkEq(m.count(), n, "count");
        }
    }
}
