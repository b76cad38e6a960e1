package sx;

/** A hash-consed term over bit-vectors (32/64 bits) and booleans (width 1). Floats are bit patterns. */
final class T {
    static final int CONST = 0, VAR = 1, ADD = 2, SUB = 3, MUL = 4, SDIV = 5, SREM = 6, AND = 7, OR = 8, XOR = 9,
            SHL = 10, LSHR = 11, ASHR = 12, SX = 13 /* sign-extend low v bits, same width */, I2L = 14, L2I = 15,
            ITE = 16, EQ = 20, SLT = 21, SLE = 22, BAND = 24, BOR = 25, BNOT = 26,
            FADD = 30, FSUB = 31, FMUL = 32, FDIV = 33, FEQ = 34, FLT = 35, FLE = 36,
            F2D = 40, D2F = 41, I2F = 42, I2D = 43, L2F = 44, L2D = 45, F2I = 46, F2L = 47, D2I = 48, D2L = 49,
            CEIL = 50, FLOOR = 51;
    static final String[] NAMES = new String[64];

    static {
        final String[] n = {"const", "var", "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>>", ">>", "sx", "i2l", "l2i", "ite"};
        System.arraycopy(n, 0, NAMES, 0, n.length);
        NAMES[EQ] = "="; NAMES[SLT] = "<"; NAMES[SLE] = "<="; NAMES[BAND] = "and"; NAMES[BOR] = "or"; NAMES[BNOT] = "not";
        NAMES[FADD] = "f+"; NAMES[FSUB] = "f-"; NAMES[FMUL] = "f*"; NAMES[FDIV] = "f/"; NAMES[FEQ] = "f="; NAMES[FLT] = "f<";
        NAMES[FLE] = "f<="; NAMES[F2D] = "f2d"; NAMES[D2F] = "d2f"; NAMES[I2F] = "i2f"; NAMES[I2D] = "i2d"; NAMES[L2F] = "l2f";
        NAMES[L2D] = "l2d"; NAMES[F2I] = "f2i"; NAMES[F2L] = "f2l"; NAMES[D2I] = "d2i"; NAMES[D2L] = "d2l"; NAMES[CEIL] = "ceil"; NAMES[FLOOR] = "floor";
    }

    final int op;
    final int w;
    final T a;
    final T b;
    final T c;
    final long v;
    final String name;
    final int hash;
    int id;
    /** signed interval of the value (bit-vectors), 0..1 for booleans */
    long lo;
    long hi;
    private T[] vars;
    /** contains a division or remainder */
    final boolean div;
    /** linear form, once computed */
    Object lin;

    T(final int op, final int w, final T a, final T b, final T c, final long v, final String name) {
        this.op = op;
        this.w = w;
        this.a = a;
        this.b = b;
        this.c = c;
        this.v = v;
        this.name = name;
        int h = op * 31 + w;
        h = h * 31 + (a == null ? 0 : a.id);
        h = h * 31 + (b == null ? 0 : b.id);
        h = h * 31 + (c == null ? 0 : c.id);
        h = h * 31 + Long.hashCode(v);
        h = h * 31 + (name == null ? 0 : name.hashCode());
        this.hash = h ^ (h >>> 15);
        this.div = op == SDIV || op == SREM || a != null && a.div || b != null && b.div || c != null && c.div;
    }

    private static final T[] NONE = new T[0];

    /** The variables of this term, in the order of their ids. */
    T[] vars() {
        if (vars == null) {
            if (op == CONST) {
                vars = NONE;
            } else if (op == VAR) {
                vars = new T[] {this};
            } else {
                T[] r = a.vars();
                if (b != null) {
                    r = union(r, b.vars());
                }
                if (c != null) {
                    r = union(r, c.vars());
                }
                vars = r;
            }
        }
        return vars;
    }

    private static T[] union(final T[] x, final T[] y) {
        if (x == y || y.length == 0) {
            return x;
        }
        if (x.length == 0) {
            return y;
        }
        final T[] r = new T[x.length + y.length];
        int i = 0;
        int j = 0;
        int n = 0;
        while (i < x.length && j < y.length) {
            if (x[i] == y[j]) {
                r[n++] = x[i++];
                j++;
            } else {
                r[n++] = x[i].id < y[j].id ? x[i++] : y[j++];
            }
        }
        while (i < x.length) {
            r[n++] = x[i++];
        }
        while (j < y.length) {
            r[n++] = y[j++];
        }
        return n == x.length ? x : n == y.length ? y : java.util.Arrays.copyOf(r, n);
    }

    boolean isConst() {
        return op == CONST;
    }

    boolean isTrue() {
        return op == CONST && v == 1;
    }

    boolean isFalse() {
        return op == CONST && v == 0;
    }

    @Override
    public int hashCode() {
        return hash;
    }

    /** Structural equality one level deep: children are already hash-consed. */
    boolean same(final T o) {
        return op == o.op && w == o.w && a == o.a && b == o.b && c == o.c && v == o.v
                && (name == o.name || name != null && name.equals(o.name));
    }

    @Override
    public String toString() {
        final StringBuilder sb = new StringBuilder();
        print(sb);
        return sb.toString();
    }

    private void print(final StringBuilder sb) {
        if (op == CONST) {
            sb.append(w == 1 ? (v == 1 ? "true" : "false") : Long.toString(v));
        } else if (op == VAR) {
            sb.append(name);
        } else {
            sb.append('(').append(NAMES[op]);
            if (op == SX) {
                sb.append(v);
            }
            for (T k : new T[] {a, b, c}) {
                if (k != null) {
                    sb.append(' ');
                    k.print(sb);
                }
            }
            sb.append(')');
        }
    }
}
