package sx;

import java.util.HashMap;
import java.util.IdentityHashMap;
import java.util.Map;

/** Builds and simplifies terms. One factory per engine; terms of different factories never mix. */
final class TF {
    private T[] table = new T[1 << 16];
    private int count = 0;
    final T TRUE = mk(T.CONST, 1, null, null, null, 1, null);
    final T FALSE = mk(T.CONST, 1, null, null, null, 0, null);
    private final T[] small = new T[1280];
    final T I0 = i32(0);
    final T I1 = i32(1);

    private T mk(final int op, final int w, final T a, final T b, final T c, final long v, final String name) {
        final T t = new T(op, w, a, b, c, v, name);
        int i = t.hash & (table.length - 1);
        while (table[i] != null) {
            if (table[i].hash == t.hash && table[i].same(t)) {
                return table[i];
            }
            i = (i + 1) & (table.length - 1);
        }
        t.id = ++count;
        bounds(t);
        table[i] = t;
        if (count * 2 > table.length) {
            final T[] old = table;
            table = new T[old.length * 2];
            for (T o : old) {
                if (o != null) {
                    int j = o.hash & (table.length - 1);
                    while (table[j] != null) {
                        j = (j + 1) & (table.length - 1);
                    }
                    table[j] = o;
                }
            }
        }
        return t;
    }

    int termCount() {
        return count;
    }

    private static void bounds(final T t) {
        final long min = t.w == 32 ? Integer.MIN_VALUE : t.w == 64 ? Long.MIN_VALUE : 0;
        final long max = t.w == 32 ? Integer.MAX_VALUE : t.w == 64 ? Long.MAX_VALUE : 1;
        t.lo = min;
        t.hi = max;
        switch (t.op) {
            case T.CONST -> t.lo = t.hi = t.v;
            case T.SX -> {
                final long m = 1L << (t.v - 1);
                t.lo = -m;
                t.hi = m - 1;
            }
            case T.AND -> {
                if (t.b.isConst() && t.b.v >= 0) {
                    t.lo = 0;
                    t.hi = t.b.v;
                }
                if (t.a.lo >= 0) {
                    t.lo = 0;
                    t.hi = Math.min(t.hi, t.a.hi);
                }
            }
            case T.OR, T.XOR -> {
                if (t.a.lo >= 0 && t.b.lo >= 0) {
                    t.lo = 0;
                    final long m = Long.highestOneBit(t.a.hi | t.b.hi);
                    t.hi = m == 0 ? 0 : Math.min(max, (m << 1) - 1);
                    if (t.hi < 0) {
                        t.hi = max;
                    }
                }
            }
            case T.LSHR -> {
                if (t.b.isConst() && (t.b.v & (t.w - 1)) > 0) {
                    t.lo = 0;
                    t.hi = (t.w == 32 ? 0xffffffffL : -1L) >>> (t.b.v & (t.w - 1));
                    if (t.a.lo >= 0) {
                        t.hi = t.a.hi >> (t.b.v & (t.w - 1));
                    }
                }
            }
            case T.ASHR -> {
                if (t.b.isConst()) {
                    final int s = (int) (t.b.v & (t.w - 1));
                    t.lo = t.a.lo >> s;
                    t.hi = t.a.hi >> s;
                }
            }
            case T.I2L, T.I2D, T.I2F -> {
                if (t.op == T.I2L) {
                    t.lo = t.a.lo;
                    t.hi = t.a.hi;
                }
            }
            case T.L2I -> {
                if (t.a.lo >= Integer.MIN_VALUE && t.a.hi <= Integer.MAX_VALUE) {
                    t.lo = t.a.lo;
                    t.hi = t.a.hi;
                }
            }
            case T.ITE -> {
                t.lo = Math.min(t.b.lo, t.c.lo);
                t.hi = Math.max(t.b.hi, t.c.hi);
            }
            case T.ADD, T.SUB -> {
                try {
                    final long l = t.op == T.ADD ? Math.addExact(t.a.lo, t.b.lo) : Math.subtractExact(t.a.lo, t.b.hi);
                    final long h = t.op == T.ADD ? Math.addExact(t.a.hi, t.b.hi) : Math.subtractExact(t.a.hi, t.b.lo);
                    if (l >= min && h <= max) {
                        t.lo = l;
                        t.hi = h;
                    }
                } catch (ArithmeticException e) {
                    // keep the full range
                }
            }
            case T.MUL -> {
                try {
                    final long[] p = {
                        Math.multiplyExact(t.a.lo, t.b.lo), Math.multiplyExact(t.a.lo, t.b.hi),
                        Math.multiplyExact(t.a.hi, t.b.lo), Math.multiplyExact(t.a.hi, t.b.hi)
                    };
                    long l = p[0];
                    long h = p[0];
                    for (long x : p) {
                        l = Math.min(l, x);
                        h = Math.max(h, x);
                    }
                    if (l >= min && h <= max) {
                        t.lo = l;
                        t.hi = h;
                    }
                } catch (ArithmeticException e) {
                    // keep the full range
                }
            }
            case T.SDIV -> {
                if (t.b.isConst() && t.b.v > 0) {
                    t.lo = t.a.lo / t.b.v;
                    t.hi = t.a.hi / t.b.v;
                }
            }
            case T.SREM -> {
                if (t.b.isConst() && t.b.v > 0) {
                    t.lo = t.a.lo >= 0 ? 0 : -(t.b.v - 1);
                    t.hi = t.a.hi <= 0 ? 0 : Math.min(t.b.v - 1, t.a.lo >= 0 ? t.a.hi : t.b.v - 1);
                }
            }
            default -> { }
        }
    }

    T c(final int w, final long v) {
        if (w == 1) {
            return v != 0 ? TRUE : FALSE;
        }
        return w == 32 ? i32((int) v) : mk(T.CONST, 64, null, null, null, v, null);
    }

    T i32(final int v) {
        if (v >= -256 && v < 1024) {
            T t = small[v + 256];
            if (t == null) {
                t = small[v + 256] = mk(T.CONST, 32, null, null, null, v, null);
            }
            return t;
        }
        return mk(T.CONST, 32, null, null, null, v, null);
    }

    T i64(final long v) {
        return mk(T.CONST, 64, null, null, null, v, null);
    }

    T bool(final boolean b) {
        return b ? TRUE : FALSE;
    }

    T var(final String name, final int w) {
        return mk(T.VAR, w, null, null, null, 0, name);
    }

    private static long norm(final int w, final long v) {
        return w == 32 ? (int) v : v;
    }

    T bin(final int op, T a, T b) {
        final int w = a.w;
        if (a.isConst() && b.isConst()) {
            return c(w, foldBin(op, w, a.v, b.v));
        }
        switch (op) {
            case T.ADD, T.MUL, T.AND, T.OR, T.XOR -> {
                if (a.isConst() || (!b.isConst() && a.id > b.id)) {
                    final T x = a;
                    a = b;
                    b = x;
                }
            }
            default -> { }
        }
        if (b.isConst()) {
            final long v = b.v;
            switch (op) {
                case T.ADD -> {
                    if (v == 0) {
                        return a;
                    }
                    if (a.op == T.ADD && a.b.isConst()) {
                        return bin(T.ADD, a.a, c(w, norm(w, a.b.v + v)));
                    }
                }
                case T.SUB -> {
                    return bin(T.ADD, a, c(w, norm(w, -v)));
                }
                case T.MUL -> {
                    if (v == 0) {
                        return b;
                    }
                    if (v == 1) {
                        return a;
                    }
                }
                case T.SDIV -> {
                    if (v == 1) {
                        return a;
                    }
                    if (v > 0 && (v & (v - 1)) == 0 && a.lo >= 0) {
                        return bin(T.LSHR, a, c(32, Long.numberOfTrailingZeros(v)));
                    }
                    if (v > 0 && a.lo >= 0 && a.hi < v) {
                        return c(w, 0);
                    }
                    if (v > 0 && a.op == T.SDIV && a.b.isConst() && a.b.v > 0 && a.b.v <= Integer.MAX_VALUE / v) {
                        return bin(T.SDIV, a.a, c(w, a.b.v * v));
                    }
                    if (v > 0) {
                        final T[] q = split(a, v);
                        if (q != null) {
                            return q[0];
                        }
                    }
                }
                case T.SREM -> {
                    if (v == 1) {
                        return c(w, 0);
                    }
                    if (v > 0 && (v & (v - 1)) == 0 && a.lo >= 0) {
                        return bin(T.AND, a, c(w, v - 1));
                    }
                    if (v > 0 && a.lo >= 0 && a.hi < v) {
                        return a;
                    }
                    if (v > 0) {
                        final T[] q = split(a, v);
                        if (q != null) {
                            return q[1];
                        }
                    }
                }
                case T.AND -> {
                    if (v == 0) {
                        return b;
                    }
                    if (v == -1) {
                        return a;
                    }
                    if (a.op == T.AND && a.b.isConst()) {
                        return bin(T.AND, a.a, c(w, a.b.v & v));
                    }
                    if (v > 0 && (v & (v + 1)) == 0 && a.lo >= 0 && a.hi <= v) {
                        return a;
                    }
                    if (a.op == T.SX && v > 0 && (v & (v + 1)) == 0 && v <= (1L << a.v) - 1) {
                        return bin(T.AND, a.a, b);
                    }
                    if (a.op == T.OR && a.b.isConst()) {
                        if ((a.b.v & v) == 0) {
                            return bin(T.AND, a.a, b);
                        }
                    }
                }
                case T.OR -> {
                    if (v == 0) {
                        return a;
                    }
                    if (v == -1) {
                        return b;
                    }
                }
                case T.XOR -> {
                    if (v == 0) {
                        return a;
                    }
                    if (a.op == T.XOR && a.b.isConst()) {
                        return bin(T.XOR, a.a, c(w, a.b.v ^ v));
                    }
                }
                case T.SHL, T.LSHR, T.ASHR -> {
                    if ((v & (w - 1)) == 0) {
                        return a;
                    }
                    if (op == T.ASHR && a.lo >= 0) {
                        return bin(T.LSHR, a, b);
                    }
                }
                default -> { }
            }
            if (a.op == T.ITE && a.b.isConst() && a.c.isConst()) {
                return ite(a.a, bin(op, a.b, b), bin(op, a.c, b));
            }
        }
        if (a == b) {
            switch (op) {
                case T.SUB, T.XOR -> {
                    return c(w, 0);
                }
                case T.AND, T.OR -> {
                    return a;
                }
                default -> { }
            }
        }
        return mk(op, w, a, b, null, 0, null);
    }

    /** A linear form: atoms with coefficients, and a constant, modulo 2^w. */
    static final class Lin {
        final HashMap<T, Long> k = new HashMap<>();
        long c;

        void add(final T t, final long v, final int w) {
            final long n = norm(w, k.getOrDefault(t, 0L) + v);
            if (n == 0) {
                k.remove(t);
            } else {
                k.put(t, n);
            }
        }

        void add(final Lin o, final long f, final int w) {
            for (Map.Entry<T, Long> e : o.k.entrySet()) {
                add(e.getKey(), norm(w, e.getValue() * f), w);
            }
            c = norm(w, c + o.c * f);
        }
    }

    Lin lin(final T t) {
        if (t.lin == null) {
            final Lin r = new Lin();
            final int w = t.w;
            if (t.isConst()) {
                r.c = t.v;
            } else if (t.op == T.ADD || t.op == T.SUB) {
                r.add(lin(t.a), 1, w);
                r.add(lin(t.b), t.op == T.ADD ? 1 : -1, w);
            } else if (t.op == T.MUL && t.b.isConst()) {
                r.add(lin(t.a), t.b.v, w);
            } else if (t.op == T.SHL && t.b.isConst()) {
                r.add(lin(t.a), norm(w, 1L << (t.b.v & (w - 1))), w);
            } else if (t.op == T.SREM && t.b.isConst() && t.b.v > 0) {
                r.add(lin(t.a), 1, w);
                r.add(lin(bin(T.SDIV, t.a, t.b)), -t.b.v, w);
            } else {
                r.add(t, 1, w);
            }
            t.lin = r;
        }
        return (Lin) t.lin;
    }

    /** Is the integer value of this sum what its linear form says, with no wrap-around anywhere in between? */
    private static boolean exact(final T t) {
        switch (t.op) {
            case T.ADD, T.SUB, T.MUL -> {
                if (!exact(t.a) || !exact(t.b)) {
                    return false;
                }
                final java.math.BigInteger[] x = {java.math.BigInteger.valueOf(t.a.lo), java.math.BigInteger.valueOf(t.a.hi)};
                final java.math.BigInteger[] y = {java.math.BigInteger.valueOf(t.b.lo), java.math.BigInteger.valueOf(t.b.hi)};
                for (java.math.BigInteger p : x) {
                    for (java.math.BigInteger q : y) {
                        final java.math.BigInteger v = t.op == T.ADD ? p.add(q) : t.op == T.SUB ? p.subtract(q) : p.multiply(q);
                        if (v.bitLength() >= t.w) {
                            return false;
                        }
                    }
                }
                return true;
            }
            case T.SHL -> {
                return false;
            }
            default -> {
                return true;
            }
        }
    }

    /** Division of a sum by a constant where the part that is no multiple stays below it: the quotient and the rest. */
    private T[] split(final T a, final long d) {
        if (a.lo < 0 || a.op != T.ADD && a.op != T.SUB && a.op != T.MUL || !exact(a)) {
            return null;
        }
        final Lin l = new Lin();
        if (!plain(a, 1, l)) {
            return null;
        }
        T q = c(a.w, Math.floorDiv(l.c, d));
        T r = c(a.w, Math.floorMod(l.c, d));
        long lo = r.v;
        long hi = r.v;
        boolean some = q.v != 0;
        for (Map.Entry<T, Long> e : sorted(l)) {
            final long k = e.getValue();
            final T t = e.getKey();
            if (k % d == 0) {
                q = bin(T.ADD, q, bin(T.MUL, t, c(a.w, k / d)));
                some = true;
            } else {
                final long x = k > 0 ? t.lo : t.hi;
                final long y = k > 0 ? t.hi : t.lo;
                if (Math.multiplyHigh(k, x) != (k * x >> 63) || Math.multiplyHigh(k, y) != (k * y >> 63)) {
                    return null;
                }
                lo += k * x;
                hi += k * y;
                if (lo < 0 || hi >= d) {
                    return null;
                }
                r = bin(T.ADD, r, bin(T.MUL, t, c(a.w, k)));
            }
        }
        return some ? new T[] {q, r} : null;
    }

    /** Comparison of two sums that share terms: what is left without those. */
    private T apart(final int op, final T a, final T b) {
        if (!sum(a) && !sum(b) || !exact(a) || !exact(b)) {
            return null;
        }
        final Lin l = new Lin();
        final Lin r = new Lin();
        final Lin d = new Lin();
        if (!plain(a, 1, l) || !plain(b, 1, r) || !plain(a, 1, d) || !plain(b, -1, d)) {
            return null;
        }
        java.math.BigInteger lo = java.math.BigInteger.valueOf(d.c);
        java.math.BigInteger hi = lo;
        java.math.BigInteger most = lo.abs();
        for (Map.Entry<T, Long> e : d.k.entrySet()) {
            final java.math.BigInteger k = java.math.BigInteger.valueOf(e.getValue());
            final java.math.BigInteger x = k.multiply(java.math.BigInteger.valueOf(e.getKey().lo));
            final java.math.BigInteger y = k.multiply(java.math.BigInteger.valueOf(e.getKey().hi));
            lo = lo.add(x.min(y));
            hi = hi.add(x.max(y));
            most = most.add(x.abs().max(y.abs()));
        }
        if (lo.signum() > 0 || op == T.SLT && lo.signum() >= 0) {
            return FALSE;
        }
        if (op == T.EQ ? hi.signum() < 0 : hi.signum() < 0 || op == T.SLE && hi.signum() == 0) {
            return bool(op != T.EQ);
        }
        if (d.k.size() >= l.k.size() + r.k.size() || most.bitLength() >= a.w) {
            return null;
        }
        T p = null;
        T n = null;
        for (Map.Entry<T, Long> e : sorted(d)) {
            final boolean pos = e.getValue() > 0;
            final T t = bin(T.MUL, e.getKey(), c(a.w, Math.abs(e.getValue())));
            if (pos) {
                p = p == null ? t : bin(T.ADD, p, t);
            } else {
                n = n == null ? t : bin(T.ADD, n, t);
            }
        }
        if (p == null) {
            p = c(a.w, d.c);
        } else if (n == null) {
            n = c(a.w, -d.c);
        } else if (d.c > 0) {
            p = bin(T.ADD, p, c(a.w, d.c));
        } else if (d.c < 0) {
            n = bin(T.ADD, n, c(a.w, -d.c));
        }
        return cmp(op, p, n == null ? c(a.w, 0) : n);
    }

    private static boolean sum(final T t) {
        return t.op == T.ADD || t.op == T.SUB || t.op == T.MUL;
    }

    private static boolean plain(final T t, final long f, final Lin l) {
        if (Math.abs(f) > 1L << 40) {
            return false;
        }
        if (t.isConst()) {
            l.c += f * t.v;
            return Math.abs(t.v) <= 1L << 31;
        }
        if (t.op == T.ADD || t.op == T.SUB) {
            return plain(t.a, f, l) && plain(t.b, t.op == T.ADD ? f : -f, l);
        }
        if (t.op == T.MUL && t.b.isConst() && Math.abs(t.b.v) < 1L << 31) {
            return plain(t.a, f * t.b.v, l);
        }
        l.add(t, f, 64);
        return true;
    }

    private static java.util.List<Map.Entry<T, Long>> sorted(final Lin l) {
        final java.util.List<Map.Entry<T, Long>> r = new java.util.ArrayList<>(l.k.entrySet());
        r.sort(java.util.Comparator.comparingInt(e -> e.getKey().id));
        return r;
    }

    static long foldBin(final int op, final int w, final long a, final long b) {
        final int sh = (int) (b & (w - 1));
        return norm(w, switch (op) {
            case T.ADD -> a + b;
            case T.SUB -> a - b;
            case T.MUL -> a * b;
            case T.SDIV -> w == 32 ? (int) a / (int) b : a / b;
            case T.SREM -> w == 32 ? (int) a % (int) b : a % b;
            case T.AND -> a & b;
            case T.OR -> a | b;
            case T.XOR -> a ^ b;
            case T.SHL -> a << sh;
            case T.LSHR -> w == 32 ? (int) a >>> sh : a >>> sh;
            case T.ASHR -> a >> sh;
            default -> throw new IllegalStateException("fold " + op);
        });
    }

    T sx(final int bits, final T a) {
        if (a.isConst()) {
            return c(a.w, a.v << (64 - bits) >> (64 - bits));
        }
        final long m = 1L << (bits - 1);
        if (a.lo >= -m && a.hi < m) {
            return a;
        }
        if (a.op == T.SX && a.v >= bits) {
            return sx(bits, a.a);
        }
        if (a.op == T.AND && a.b.isConst() && (a.b.v & ((1L << bits) - 1)) == (1L << bits) - 1) {
            return sx(bits, a.a);
        }
        return mk(T.SX, a.w, a, null, null, bits, null);
    }

    T i2l(final T a) {
        return a.isConst() ? i64(a.v) : mk(T.I2L, 64, a, null, null, 0, null);
    }

    T l2i(final T a) {
        if (a.isConst()) {
            return i32((int) a.v);
        }
        if (a.op == T.I2L) {
            return a.a;
        }
        return mk(T.L2I, 32, a, null, null, 0, null);
    }

    T ite(final T c, final T a, final T b) {
        if (c.isTrue() || a == b) {
            return a;
        }
        if (c.isFalse()) {
            return b;
        }
        if (c.op == T.BNOT) {
            return ite(c.a, b, a);
        }
        if (a.w == 1) {
            if (a.isTrue()) {
                return or(c, b);
            }
            if (a.isFalse()) {
                return and(not(c), b);
            }
            if (b.isTrue()) {
                return or(not(c), a);
            }
            if (b.isFalse()) {
                return and(c, a);
            }
        }
        if (b.op == T.ITE && b.a == c) {
            return ite(c, a, b.c);
        }
        if (a.op == T.ITE && a.a == c) {
            return ite(c, a.b, b);
        }
        return mk(T.ITE, a.w, c, a, b, 0, null);
    }

    T not(final T a) {
        if (a.isConst()) {
            return a.v == 1 ? FALSE : TRUE;
        }
        if (a.op == T.BNOT) {
            return a.a;
        }
        if (a.op == T.SLT) {
            return cmp(T.SLE, a.b, a.a);
        }
        if (a.op == T.SLE) {
            return cmp(T.SLT, a.b, a.a);
        }
        return mk(T.BNOT, 1, a, null, null, 0, null);
    }

    T and(T a, T b) {
        if (a.isFalse() || b.isFalse()) {
            return FALSE;
        }
        if (a.isTrue() || a == b) {
            return b;
        }
        if (b.isTrue()) {
            return a;
        }
        if (not(a) == b) {
            return FALSE;
        }
        if (a.id > b.id) {
            final T x = a;
            a = b;
            b = x;
        }
        return mk(T.BAND, 1, a, b, null, 0, null);
    }

    T or(T a, T b) {
        if (a.isTrue() || b.isTrue()) {
            return TRUE;
        }
        if (a.isFalse() || a == b) {
            return b;
        }
        if (b.isFalse()) {
            return a;
        }
        if (not(a) == b) {
            return TRUE;
        }
        if (a.id > b.id) {
            final T x = a;
            a = b;
            b = x;
        }
        return mk(T.BOR, 1, a, b, null, 0, null);
    }

    private static boolean constLeaves(final T t) {
        return t.isConst() || t.op == T.ITE && constLeaves(t.b) && constLeaves(t.c);
    }

    T eq(final T a, final T b) {
        return cmp(T.EQ, a, b);
    }

    T cmp(final int op, T a, T b) {
        if (a.isConst() && b.isConst()) {
            return bool(op == T.EQ ? a.v == b.v : op == T.SLT ? a.v < b.v : a.v <= b.v);
        }
        if (a == b) {
            return bool(op != T.SLT);
        }
        if (a.w > 1) {
            switch (op) {
                case T.EQ -> {
                    if (a.hi < b.lo || b.hi < a.lo) {
                        return FALSE;
                    }
                    if (a.div || b.div) {
                        final Lin l = new Lin();
                        l.add(lin(a), 1, a.w);
                        l.add(lin(b), -1, a.w);
                        if (l.k.isEmpty()) {
                            return bool(l.c == 0);
                        }
                    }
                }
                case T.SLT -> {
                    if (a.hi < b.lo) {
                        return TRUE;
                    }
                    if (a.lo >= b.hi) {
                        return FALSE;
                    }
                }
                case T.SLE -> {
                    if (a.hi <= b.lo) {
                        return TRUE;
                    }
                    if (a.lo > b.hi) {
                        return FALSE;
                    }
                }
                default -> { }
            }
            final T r = apart(op, a, b);
            if (r != null) {
                return r;
            }
        }
        if (b.isConst() && a.op == T.ITE && constLeaves(a)) {
            return ite(a.a, cmp(op, a.b, b), cmp(op, a.c, b));
        }
        if (a.isConst() && b.op == T.ITE && constLeaves(b)) {
            return ite(b.a, cmp(op, a, b.b), cmp(op, a, b.c));
        }
        if (op == T.EQ) {
            if (a.isConst() || (!b.isConst() && a.id > b.id)) {
                final T x = a;
                a = b;
                b = x;
            }
            if (b.isConst()) {
                if (a.w == 1) {
                    return b.v == 1 ? a : not(a);
                }
                if (a.op == T.ADD && a.b.isConst()) {
                    return eq(a.a, c(a.w, norm(a.w, b.v - a.b.v)));
                }
                if (a.op == T.XOR && a.b.isConst()) {
                    return eq(a.a, c(a.w, b.v ^ a.b.v));
                }
                if (a.op == T.I2L) {
                    return eq(a.a, i32((int) b.v));
                }
                if (a.op == T.SUB && b.v == 0) {
                    return eq(a.a, a.b);
                }
                if (a.op == T.AND && a.b.isConst() && (b.v & ~a.b.v) != 0) {
                    return FALSE;
                }
            } else if (a.op == T.I2L && b.op == T.I2L) {
                return eq(a.a, b.a);
            }
        } else if (a.op == T.I2L && b.op == T.I2L) {
            return cmp(op, a.a, b.a);
        } else if (op == T.SLT && a.isConst() && a.v < (a.w == 32 ? Integer.MAX_VALUE : Long.MAX_VALUE)) {
            return cmp(T.SLE, c(a.w, a.v + 1), b);
        } else if (op == T.SLT && b.isConst() && b.v > (b.w == 32 ? Integer.MIN_VALUE : Long.MIN_VALUE)) {
            return cmp(T.SLE, a, c(b.w, b.v - 1));
        }
        return mk(op, 1, a, b, null, 0, null);
    }

    T fbin(final int op, final T a, final T b) {
        if (a.isConst() && b.isConst()) {
            return c(a.w, foldF(op, a.w, a.v, b.v));
        }
        return mk(op, a.w, a, b, null, 0, null);
    }

    static long foldF(final int op, final int w, final long a, final long b) {
        if (w == 32) {
            final float x = Float.intBitsToFloat((int) a);
            final float y = Float.intBitsToFloat((int) b);
            return Float.floatToIntBits(switch (op) {
                case T.FADD -> x + y;
                case T.FSUB -> x - y;
                case T.FMUL -> x * y;
                default -> x / y;
            });
        }
        final double x = Double.longBitsToDouble(a);
        final double y = Double.longBitsToDouble(b);
        return Double.doubleToLongBits(switch (op) {
            case T.FADD -> x + y;
            case T.FSUB -> x - y;
            case T.FMUL -> x * y;
            default -> x / y;
        });
    }

    T fcmp(final int op, T a, T b) {
        if (a.isConst() && b.isConst()) {
            return bool(foldFC(op, a.w, a.v, b.v));
        }
        if (op == T.FEQ && a.id > b.id) {
            final T x = a;
            a = b;
            b = x;
        }
        return mk(op, 1, a, b, null, 0, null);
    }

    static boolean foldFC(final int op, final int w, final long a, final long b) {
        final double x = w == 32 ? Float.intBitsToFloat((int) a) : Double.longBitsToDouble(a);
        final double y = w == 32 ? Float.intBitsToFloat((int) b) : Double.longBitsToDouble(b);
        return op == T.FEQ ? x == y : op == T.FLT ? x < y : x <= y;
    }

    T conv(final int op, final T a) {
        final int w = switch (op) {
            case T.D2F, T.I2F, T.L2F, T.F2I, T.D2I -> 32;
            default -> 64;
        };
        if (a.isConst()) {
            return c(w, foldConv(op, a.v));
        }
        if (op == T.D2F && a.op == T.F2D) {
            return a.a;
        }
        if (op == T.D2I && a.op == T.I2D) {
            return a.a;
        }
        if ((op == T.D2I || op == T.D2L) && (a.op == T.CEIL || a.op == T.FLOOR)) {
            final T q = quotient(a);
            if (q != null && (op == T.D2L || q.lo >= Integer.MIN_VALUE && q.hi <= Integer.MAX_VALUE)) {
                return op == T.D2L ? q : l2i(q);
            }
        }
        return mk(op, w, a, null, null, 0, null);
    }

    /** An int or a long that fits a double, divided by a power of two and rounded up or down: all of it is exact. */
    private T quotient(final T t) {
        if (t.a.op != T.FDIV || !t.a.b.isConst() || t.a.a.op != T.I2D && t.a.a.op != T.L2D) {
            return null;
        }
        final double d = Double.longBitsToDouble(t.a.b.v);
        if (!(d >= 1 && d <= 1L << 40) || d != (long) d || Long.bitCount((long) d) != 1) {
            return null;
        }
        final T x = t.a.a.op == T.I2D ? i2l(t.a.a.a) : t.a.a.a;
        if (x.lo < -(1L << 52) || x.hi > 1L << 52) {
            return null;
        }
        final T y = t.op == T.CEIL ? bin(T.ADD, x, i64((long) d - 1)) : x;
        return bin(T.ASHR, y, i64(Long.numberOfTrailingZeros((long) d)));
    }

    static long foldConv(final int op, final long v) {
        final float f = Float.intBitsToFloat((int) v);
        final double d = Double.longBitsToDouble(v);
        return switch (op) {
            case T.F2D -> Double.doubleToLongBits((double) f);
            case T.D2F -> Float.floatToIntBits((float) d);
            case T.I2F -> Float.floatToRawIntBits((float) (int) v);
            case T.I2D -> Double.doubleToRawLongBits((double) (int) v);
            case T.L2F -> Float.floatToRawIntBits((float) v);
            case T.L2D -> Double.doubleToRawLongBits((double) v);
            case T.F2I -> (int) f;
            case T.F2L -> (long) f;
            case T.D2I -> (int) d;
            case T.D2L -> (long) d;
            case T.CEIL -> Double.doubleToLongBits(Math.ceil(d));
            case T.FLOOR -> Double.doubleToLongBits(Math.floor(d));
            default -> throw new IllegalStateException();
        };
    }

    /** Value of t under the assignment; variables without a value are 0. */
    static long eval(final T t, final Map<T, Long> model) {
        return eval(t, model, new IdentityHashMap<>());
    }

    static long eval(final T t, final Map<T, Long> model, final IdentityHashMap<T, Long> memo) {
        if (t.op == T.CONST) {
            return t.v;
        }
        if (t.op == T.VAR) {
            final Long v = model.get(t);
            return v == null ? 0 : v;
        }
        final Long known = memo.get(t);
        if (known != null) {
            return known;
        }
        final long r;
        switch (t.op) {
            case T.ITE -> r = eval(t.a, model, memo) == 1 ? eval(t.b, model, memo) : eval(t.c, model, memo);
            case T.BAND -> r = eval(t.a, model, memo) == 1 && eval(t.b, model, memo) == 1 ? 1 : 0;
            case T.BOR -> r = eval(t.a, model, memo) == 1 || eval(t.b, model, memo) == 1 ? 1 : 0;
            case T.BNOT -> r = 1 - eval(t.a, model, memo);
            case T.EQ -> r = eval(t.a, model, memo) == eval(t.b, model, memo) ? 1 : 0;
            case T.SLT -> r = eval(t.a, model, memo) < eval(t.b, model, memo) ? 1 : 0;
            case T.SLE -> r = eval(t.a, model, memo) <= eval(t.b, model, memo) ? 1 : 0;
            case T.SX -> r = eval(t.a, model, memo) << (64 - t.v) >> (64 - t.v);
            case T.I2L -> r = eval(t.a, model, memo);
            case T.L2I -> r = (int) eval(t.a, model, memo);
            case T.FADD, T.FSUB, T.FMUL, T.FDIV -> r = foldF(t.op, t.w, eval(t.a, model, memo), eval(t.b, model, memo));
            case T.FEQ, T.FLT, T.FLE -> r = foldFC(t.op, t.a.w, eval(t.a, model, memo), eval(t.b, model, memo)) ? 1 : 0;
            case T.SDIV, T.SREM -> {
                final long d = eval(t.b, model, memo);
                r = d == 0 ? 0 : foldBin(t.op, t.w, eval(t.a, model, memo), d);
            }
            default -> {
                if (t.op >= T.F2D) {
                    r = foldConv(t.op, eval(t.a, model, memo));
                } else {
                    r = foldBin(t.op, t.w, eval(t.a, model, memo), eval(t.b, model, memo));
                }
            }
        }
        memo.put(t, r);
        return r;
    }

    /** Replaces variables. */
    T subst(final T t, final Map<T, T> map, final HashMap<T, T> memo) {
        if (t.op == T.CONST) {
            return t;
        }
        if (t.op == T.VAR) {
            final T r = map.get(t);
            return r == null ? t : r;
        }
        T r = memo.get(t);
        if (r == null) {
            final T a = subst(t.a, map, memo);
            final T b = t.b == null ? null : subst(t.b, map, memo);
            final T c = t.c == null ? null : subst(t.c, map, memo);
            // rebuilt through mk, with the operands of commutative operators in canonical order
            T x = a;
            T y = b;
            switch (t.op) {
                case T.ADD, T.MUL, T.AND, T.OR, T.XOR, T.EQ, T.BAND, T.BOR, T.FEQ -> {
                    if (x.isConst() || (!y.isConst() && x.id > y.id)) {
                        x = b;
                        y = a;
                    }
                }
                default -> { }
            }
            r = mk(t.op, t.w, x, y, c, t.v, t.name);
            memo.put(t, r);
        }
        return r;
    }
}
