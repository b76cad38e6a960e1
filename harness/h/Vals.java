package h;

import sx.Sym;

/** Symbolic values of reference types. */
public final class Vals {
    private Vals() {}

    /** A key or value whose equality and hash code are symbolic: equal objects have equal hash codes, nothing else. */
    public static final class Obj implements Comparable<Obj> {
        public final int id;
        public final int hash;

        public Obj(final int id, final int hash) {
            this.id = id;
            this.hash = hash;
        }

        @Override
        public boolean equals(final Object o) {
            return o instanceof Obj && ((Obj) o).id == id;
        }

        @Override
        public int compareTo(final Obj o) {
            return Integer.compare(id, o.id);
        }

        @Override
        public int hashCode() {
            return hash;
        }
    }

    public static String twin(final String s) {
        return s == null ? null : new String(s);
    }

    public static Object twin(final Object o) {
        return o instanceof Obj ? new Obj(((Obj) o).id, ((Obj) o).hash) : o;
    }

    public static boolean same(final Object a, final Object b) {
        return a == b || a != null && a.equals(b);
    }

    public static String anyString() {
        return Sym.anyString(2);
    }

    public static Object anyObject() {
        return new Obj(Sym.anyInt(), Sym.anyInt());
    }

    /** The i-th of a hundred strings in ascending order. */
    public static String text(final int i) {
        return new String(new char[] {(char) ('0' + i / 10), (char) ('0' + i % 10)});
    }

    public static Object object(final int i) {
        return new Obj(i, i);
    }
}
