package h;

import com.bytefacets.collections.CapacityCalculator;
import com.bytefacets.collections.NumUtils;
import com.bytefacets.collections.exception.ResizeException;
import sx.Sym;

/** Capacity arithmetic. */
public final class CapacityH {
    private static final int MAX = 1 << 29;

    private CapacityH() {}

    public static void run() {
        switch (Sym.param("mode", 0)) {
            case 0:
                power();
                break;
            default:
                next();
                break;
        }
    }

    private static void power() {
        final int v = Sym.anyInt();
        Sym.assume(v >= 1);
        Sym.assume(v <= 1 << 30);
        final int p = NumUtils.nextPowerOf2(v);
        Sym.check(p >= v, "not below the argument");
        Sym.check((p & p - 1) == 0, "a power of two");
        Sym.check(p == 1 || p >> 1 < v, "the smallest one");
    }

    private static void next() {
        final int capacity = 1 << Sym.choose(31);
        final int threshold = Sym.anyInt();
        Sym.assume(threshold >= 0);
        try {
            final int got = CapacityCalculator.calculateNewCapacity("owner", capacity, threshold);
            Sym.cover("grown");
            Sym.check(capacity <= MAX, "capacities beyond the maximum do not grow");
            Sym.checkEq(got, capacity == MAX ? MAX : capacity * 2, "a capacity doubles up to the maximum");
            Sym.check(capacity < MAX || threshold != MAX, "nothing grows beyond the maximum");
        } catch (ResizeException e) {
            Sym.cover("refused");
            Sym.check(capacity > MAX || capacity == MAX && threshold == MAX, "a capacity below the maximum can grow");
        }
    }
}
