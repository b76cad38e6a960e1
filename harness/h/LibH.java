package h;

import java.lang.invoke.MethodHandles;
import java.lang.invoke.VarHandle;
import java.nio.ByteBuffer;
import java.nio.ByteOrder;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.BitSet;
import java.util.Collections;
import java.util.Comparator;
import java.util.EnumMap;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.Objects;
import java.util.Optional;
import java.util.concurrent.atomic.AtomicLong;
import java.util.concurrent.locks.ReentrantLock;
import java.util.function.IntUnaryOperator;
import java.util.stream.Collectors;
import java.util.stream.IntStream;
import java.util.stream.Stream;
import sx.Sym;

/** No property: library features that a rewrite of the code may use, to see that the engine executes them. */
public final class LibH {
    private LibH() {}

    enum E { A, B, C }

    record P(int x, long y) {}

    sealed interface Sh permits Sq, Ci {}

    record Sq(int a) implements Sh {}

    record Ci(int r) implements Sh {}

    private static final class V {
        private static final VarHandle LE = MethodHandles.byteArrayViewVarHandle(long[].class, ByteOrder.LITTLE_ENDIAN);
        private static final VarHandle BEI = MethodHandles.byteArrayViewVarHandle(int[].class, ByteOrder.BIG_ENDIAN);
    }

    public static void run() {
        final int x = Sym.anyInt();
        final int y = Sym.anyInt();
        final long l = Sym.anyLong();
        switch (Sym.param("what", 0)) {
            case 0: {
                final byte[] a = new byte[12];
                ByteBuffer.wrap(a).putLong(2, l);
                Sym.checkEq((long) a[9], (long) (byte) l, "bb long");
                ByteBuffer.wrap(a).order(ByteOrder.LITTLE_ENDIAN).putInt(2, x);
                Sym.checkEq(a[2], (byte) x, "bb int le");
                Sym.checkEq(ByteBuffer.wrap(a).order(ByteOrder.LITTLE_ENDIAN).getInt(2), x, "bb get");
                ByteBuffer.wrap(a).putDouble(1, 2.5).putFloat(1, 1f).putShort(3, (short) x).putChar(5, (char) x);
                Sym.checkEq(ByteBuffer.wrap(a).getChar(5), (char) x, "bb char");
                Sym.checkEq(ByteBuffer.wrap(a, 5, 4).getChar(), (char) x, "bb char");
                break;
            }
            case 1: {
                final byte[] a = new byte[12];
                V.LE.set(a, 2, l);
                Sym.checkEq((long) a[2], (long) (byte) l, "vh");
                Sym.checkEq((long) V.LE.get(a, 2), l, "vh");
                V.BEI.set(a, 2, x);
                Sym.checkEq((int) V.BEI.get(a, 2), x, "vh");
                break;
            }
            case 2: {
                int[] n = {0};
                IntStream.range(0, 4).filter(i -> i != 2).forEach(i -> n[0] += x);
                Sym.checkEq(n[0], 3 * x, "stream");
                Sym.checkEq(IntStream.rangeClosed(1, 3).sum(), 6, "sum");
                Sym.checkEq(IntStream.of(x, y).max().getAsInt(), Math.max(x, y), "max");
                Sym.check(IntStream.range(0, 3).anyMatch(i -> i == 1), "any");
                Sym.check(IntStream.range(0, 3).allMatch(i -> i < 3), "all");
                Sym.check(Arrays.equals(IntStream.range(0, 3).map(i -> i + x).toArray(), new int[] {x, x + 1, x + 2}), "arr");
                Sym.checkEq(IntStream.iterate(0, i -> i < 3, i -> i + 1).count(), 3L, "count");
                break;
            }
            case 3: {
                Sym.checkEq(Stream.of("a", "b").filter(s -> s.equals("b")).findFirst().get().length(), 1, "ff");
                Sym.checkEq(Stream.of(1, 2, 3).map(i -> i * 2).collect(Collectors.toList()).size(), 3, "coll");
                Sym.checkEq(Arrays.stream(new int[] {x, y}).sum(), x + y, "sum");
                Sym.checkEq(List.of(1, 2, 3).stream().mapToInt(Integer::intValue).sum(), 6, "sum2");
                break;
            }
            case 4: {
                final Map<Integer, Integer> m = new HashMap<>();
                m.put(1, x);
                m.put(2, y);
                Sym.checkEq(m.get(1), x, "hm");
                Sym.checkEq(m.getOrDefault(3, 5), 5, "hm");
                Sym.checkEq(m.computeIfAbsent(4, k -> x), x, "hm");
                final Map<E, Integer> em = new EnumMap<>(E.class);
                em.put(E.B, x);
                Sym.checkEq(em.get(E.B), x, "em");
                Sym.checkEq(Map.of("a", 1).get("a"), 1, "mo");
                Sym.checkEq(Map.of(E.A, 1, E.B, 2).get(E.B), 2, "moe");
                break;
            }
            case 5: {
                final List<Integer> a = new ArrayList<>();
                a.add(x);
                a.add(y);
                Collections.reverse(a);
                Sym.checkEq(a.get(0), y, "al");
                final ArrayDeque<Integer> d = new ArrayDeque<>();
                d.addFirst(x);
                d.addLast(y);
                Sym.checkEq(d.removeFirst(), x, "ad");
                final BitSet b = new BitSet();
                b.set(70);
                Sym.check(b.get(70), "bs");
                Sym.checkEq(List.of(1, 2, 3).indexOf(2), 1, "lo");
                break;
            }
            case 6: {
                final P p = new P(x, l);
                Sym.check(p.equals(new P(x, l)), "rec");
                Sym.checkEq(p.hashCode(), new P(x, l).hashCode(), "rec hash");
                final Sh s = x > 0 ? new Sq(x) : new Ci(y);
                final int v = s instanceof Sq q ? q.a() : s instanceof Ci c ? c.r() : 0;
                Sym.checkEq(v, x > 0 ? x : y, "pat");
                break;
            }
            case 7: {
                Sym.checkEq(Integer.reverseBytes(Integer.reverseBytes(x)), x, "rb");
                Sym.checkEq(Long.reverseBytes(Long.reverseBytes(l)), l, "rbl");
                Sym.checkEq(Integer.highestOneBit(x) == 0 ? 0 : 1, x == 0 ? 0 : 1, "hob");
                Sym.checkEq(Integer.bitCount(x & 7), (x & 1) + (x >> 1 & 1) + (x >> 2 & 1), "bc");
                Sym.checkEq(Integer.numberOfTrailingZeros(8), 3, "ntz");
                Sym.checkEq(Integer.signum(x), Integer.compare(x, 0), "sg");
                Sym.checkEq(Integer.rotateLeft(x, 8), x << 8 | x >>> 24, "rot");
                Sym.checkEq(Math.floorMod(x, 16), x & 15, "fm");
                Sym.checkEq(Math.floorDiv(x, 16), x >> 4, "fd");
                Sym.checkEq(Math.toIntExact((long) x), x, "tie");
                try {
                    Sym.checkEq((long) Math.addExact(x, y), (long) x + y, "ae");
                } catch (ArithmeticException e) {
                    Sym.check((long) x + y != x + y, "ae");
                }
                Sym.checkEq(Math.abs((double) x), (double) Math.abs((long) x), "abs");
                Sym.checkEq(Integer.divideUnsigned(x, 2), x >>> 1, "du");
                Sym.checkEq(Integer.toUnsignedLong(x) & 0xffffffffL, x & 0xffffffffL, "tul");
                Sym.checkEq(Double.hashCode(1.5), 1073217536, "dh");
                Sym.checkEq(Boolean.hashCode(x > 0), x > 0 ? 1231 : 1237, "bh");
                Sym.checkEq(Objects.hash(1, 2), 994, "oh");
                Sym.checkEq(Character.compare((char) x, (char) y), (char) x - (char) y, "cc");
                Sym.checkEq(Short.toUnsignedInt((short) x), x & 0xffff, "su");
                break;
            }
            case 8: {
                final ReentrantLock k = new ReentrantLock();
                k.lock();
                try {
                    final AtomicLong a = new AtomicLong(l);
                    Sym.checkEq(a.incrementAndGet(), l + 1, "al");
                    Sym.checkEq(a.updateAndGet(v -> v + 2), l + 3, "al");
                    Sym.checkEq(a.getAndUpdate(v -> v + 2), l + 3, "al");
                    Sym.checkEq(a.accumulateAndGet(7, Math::max), Math.max(7, l + 5), "al");
                } finally {
                    k.unlock();
                }
                break;
            }
            case 9: {
                try {
                    Objects.checkIndex(x, 5);
                    Sym.check(x >= 0 && x < 5, "ci");
                } catch (IndexOutOfBoundsException e) {
                    Sym.check(x < 0 || x >= 5, "ci");
                }
                try {
                    Objects.checkFromIndexSize(x, y, 5);
                    Sym.check(x >= 0 && y >= 0, "ci");
                } catch (IndexOutOfBoundsException e) {
                    Sym.check(x < 0 || y < 0 || (long) x + y > 5, "ci");
                }
                Sym.checkEq(Objects.requireNonNullElse(null, 5), 5, "rnne");
                Sym.checkEq(Optional.of(3).map(v -> v + 1).orElse(0), 4, "opt");
                break;
            }
            case 10: {
                final int[] a = {x, y, 3};
                Sym.checkEq(Arrays.copyOfRange(a, 1, 3)[0], y, "cor");
                Sym.checkEq(a.clone()[1], y, "cl");
                final int[] b = new int[3];
                Arrays.setAll(b, i -> a[i]);
                Sym.check(Arrays.equals(a, b), "sa");
                Sym.checkEq(Arrays.hashCode(a), Arrays.hashCode(b), "ah");
                final Integer[] s = {3, 1, 2};
                Arrays.sort(s, Comparator.reverseOrder());
                Sym.checkEq(s[0], 3, "sort");
                final int[] so = {3, 1, 2};
                Arrays.sort(so);
                Sym.checkEq(so[0], 1, "sort");
                final Object[] o = new Object[2];
                Arrays.fill(o, "a");
                Sym.check(o[1] == "a", "fill");
                System.arraycopy(a, 0, b, 1, 2);
                Sym.checkEq(b[1], x, "ac");
                break;
            }
            case 11: {
                final String s = switch (Sym.choose(3)) {
                    case 0 -> "a";
                    case 1 -> "bb";
                    default -> "ccc";
                };
                final int n = switch (s) {
                    case "a" -> 1;
                    case "bb" -> 2;
                    default -> 3;
                };
                Sym.checkEq(s.length(), n, "sw");
                final E e = E.values()[Sym.choose(3)];
                final int k = switch (e) {
                    case A -> 0;
                    case B -> 1;
                    case C -> 2;
                };
                Sym.checkEq(e.ordinal(), k, "esw");
                Sym.check(E.valueOf("B") == E.B, "valueOf");
                Sym.check(String.valueOf(5).equals("5"), "vo");
                Sym.check("abc".substring(1).equals("bc"), "ss");
                Sym.check(new String(new char[] {'a', 'b'}).equals("ab"), "sc");
                Sym.check("ab".toCharArray()[1] == 'b', "tca");
                Sym.check("ab".indexOf('b') == 1 && "ab".contains("b") && "ab".startsWith("a") && !"ab".isEmpty(), "st");
                Sym.check("Ab".equalsIgnoreCase("aB") && "Ab".toLowerCase().equals("ab"), "ci");
                break;
            }
            case 12: {
                final IntUnaryOperator f = IntUnaryOperator.identity().andThen(v -> v + 1).compose(v -> v * 2);
                Sym.checkEq(f.applyAsInt(x), x * 2 + 1, "fn");
                final Comparator<Integer> c = Comparator.naturalOrder();
                Sym.checkEq(c.reversed().compare(x, y), Integer.compare(y, x), "rev");
                final Comparator<String> cl = Comparator.nullsLast(Comparator.naturalOrder());
                Sym.check(cl.compare(null, "a") > 0, "nl");
                final Comparator<P> cp = Comparator.comparingInt(P::x).thenComparingLong(P::y);
                Sym.checkEq(cp.compare(new P(x, 1), new P(x, 2)), -1, "cmp");
                break;
            }
            case 13: {
                final StringBuilder sb = new StringBuilder();
                sb.append('a').append(5).append("x");
                Sym.check(sb.length() == 3, "sb");
                Sym.check(sb.toString().equals("a5x"), "sb");
                Sym.check(String.format("%d-%s", 5, "a").equals("5-a"), "fmt");
                Sym.check(String.join(",", "a", "b").equals("a,b"), "join");
                break;
            }
            case 14: {
                Sym.check(System.nanoTime() >= 0, "nt");
                Sym.checkEq(Sym.anyString(2).toLowerCase().length(), 2, "lc");
                break;
            }
            case 15: {
                final int[] d = new int[3];
                assert x == y : "never";
                d[1] |= x;
                d[1] ^= y;
                Sym.checkEq(d[1], x ^ y, "x");
                outer:
                for (int i = 0; i < 3; i++) {
                    for (int j = 0; j < 3; j++) {
                        if (i * j == 2) {
                            break outer;
                        }
                        d[0]++;
                    }
                }
                Sym.checkEq(d[0], 5, "loop");
                Sym.check((Object) d instanceof int[] z && z.length == 3, "io");
                Sym.check(d.getClass() == int[].class, "cls");
                break;
            }
            default:
                break;
        }
        Sym.observe(x);
    }
}
