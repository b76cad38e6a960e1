package sx;

import java.nio.ByteOrder;

/** Plain Java stand-ins for library methods that work on raw memory; executed symbolically like the code itself. */
final class Lib {
    private Lib() {}

    /** Where the elements of a byte array start, in the addresses that Unsafe and the buffers use. */
    private static final int BASE = 16;

    static void put(final byte[] a, final long off, final long v, final int size, final boolean big) {
        final int at = (int) (off - BASE);
        if (at < 0 || at > a.length - size) {
            throw new IllegalStateException("raw access outside of the array");
        }
        for (int i = 0; i < size; i++) {
            a[at + (big ? size - 1 - i : i)] = (byte) (v >> 8 * i);
        }
    }

    static long get(final byte[] a, final long off, final int size, final boolean big) {
        final int at = (int) (off - BASE);
        if (at < 0 || at > a.length - size) {
            throw new IllegalStateException("raw access outside of the array");
        }
        long v = 0;
        for (int i = 0; i < size; i++) {
            v |= (a[at + (big ? size - 1 - i : i)] & 0xffL) << 8 * i;
        }
        return v;
    }

    static void putLong(final Object u, final Object scope, final Object a, final long off, final long v, final boolean big) {
        put((byte[]) a, off, v, 8, big);
    }

    static void putInt(final Object u, final Object scope, final Object a, final long off, final int v, final boolean big) {
        put((byte[]) a, off, v, 4, big);
    }

    static void putShort(final Object u, final Object scope, final Object a, final long off, final short v, final boolean big) {
        put((byte[]) a, off, v, 2, big);
    }

    static void putChar(final Object u, final Object scope, final Object a, final long off, final char v, final boolean big) {
        put((byte[]) a, off, v, 2, big);
    }

    static long getLong(final Object u, final Object scope, final Object a, final long off, final boolean big) {
        return get((byte[]) a, off, 8, big);
    }

    static int getInt(final Object u, final Object scope, final Object a, final long off, final boolean big) {
        return (int) get((byte[]) a, off, 4, big);
    }

    static short getShort(final Object u, final Object scope, final Object a, final long off, final boolean big) {
        return (short) get((byte[]) a, off, 2, big);
    }

    static char getChar(final Object u, final Object scope, final Object a, final long off, final boolean big) {
        return (char) get((byte[]) a, off, 2, big);
    }

    static Object view(final Class<?> type, final ByteOrder order) {
        final View v = new View();
        v.big = order == ByteOrder.BIG_ENDIAN;
        return v;
    }

    /** A view of a byte array as values of another type. */
    static final class View {
        private boolean big;

        private static int at(final byte[] a, final int i, final int size) {
            if (i < 0 || i > a.length - size) {
                throw new IndexOutOfBoundsException();
            }
            return i + BASE;
        }

        public void set(final byte[] a, final int i, final long v) {
            put(a, at(a, i, 8), v, 8, big);
        }

        public void set(final byte[] a, final int i, final int v) {
            put(a, at(a, i, 4), v, 4, big);
        }

        public void set(final byte[] a, final int i, final short v) {
            put(a, at(a, i, 2), v, 2, big);
        }

        public void set(final byte[] a, final int i, final char v) {
            put(a, at(a, i, 2), v, 2, big);
        }

        public void set(final byte[] a, final int i, final float v) {
            put(a, at(a, i, 4), Float.floatToRawIntBits(v), 4, big);
        }

        public void set(final byte[] a, final int i, final double v) {
            put(a, at(a, i, 8), Double.doubleToRawLongBits(v), 8, big);
        }
    }

    /** The reading half of a view; the calls differ in their result types only, so each has a name of its own. */
    static long readJ(final View v, final byte[] a, final int i) {
        return get(a, View.at(a, i, 8), 8, v.big);
    }

    static int readI(final View v, final byte[] a, final int i) {
        return (int) get(a, View.at(a, i, 4), 4, v.big);
    }

    static short readS(final View v, final byte[] a, final int i) {
        return (short) get(a, View.at(a, i, 2), 2, v.big);
    }

    static char readC(final View v, final byte[] a, final int i) {
        return (char) get(a, View.at(a, i, 2), 2, v.big);
    }

    static float readF(final View v, final byte[] a, final int i) {
        return Float.intBitsToFloat((int) get(a, View.at(a, i, 4), 4, v.big));
    }

    static double readD(final View v, final byte[] a, final int i) {
        return Double.longBitsToDouble(get(a, View.at(a, i, 8), 8, v.big));
    }
}
