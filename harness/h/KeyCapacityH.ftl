package h;

<#if type.name != "Bool">
import com.bytefacets.collections.hash.${type.name}IndexedSet;
import com.bytefacets.collections.hash.${type.name}${type.name}IndexedMap;
</#if>
import com.bytefacets.collections.queue.${type.name}Deque;
import com.bytefacets.collections.queue.${type.name}HydraDeque;
import com.bytefacets.collections.vector.${type.name}Vector;
import sx.Sym;

/** What constructors accept. */
public final class ${type.name}CapacityH {
    private ${type.name}CapacityH() {}

    public static void run() {
        final int capacity = Sym.anyInt();
        // what is legal is bounded by the memory it takes
        Sym.assume(Sym.or(capacity <= 33, capacity > 1 << 29));
        boolean legal = capacity >= 1;
        boolean refused = false;
        int got = -1;
        final int kind = Sym.choose(${(type.name == "Bool")?string("3", "7")});
        if (kind < 3) {
            Sym.assume(capacity <= 33);
        }
        try {
            switch (kind) {
                case 0:
                    got = new ${type.name}Deque${type.diamond}(capacity).size();
                    break;
                case 1:
                    got = new ${type.name}HydraDeque${type.diamond}(1, capacity).size(0);
                    break;
                case 2:
                    got = new ${type.name}Vector${type.diamond}(capacity).size();
                    break;
<#if type.name != "Bool">
                case 3:
                    legal = Sym.and(legal, capacity <= 1 << 29);
                    got = new ${type.name}IndexedSet${type.diamond}(capacity).capacity();
                    break;
                case 4:
                    legal = Sym.and(legal, capacity <= 1 << 29);
                    got = new ${type.name}${type.name}IndexedMap${type.diamond}(capacity).capacity();
                    break;
                default: {
                    final double load = Sym.anyDouble();
                    legal = Sym.and(Sym.and(legal, capacity <= 1 << 29), Sym.and(load > 0, load <= 1));
                    got = kind == 5 ? new ${type.name}IndexedSet${type.diamond}(capacity, load).capacity()
                            : new ${type.name}${type.name}IndexedMap${type.diamond}(capacity, load).capacity();
                    break;
                }
<#else>
                default:
                    break;
</#if>
            }
        } catch (IllegalArgumentException e) {
            refused = true;
        }
        Sym.cover(refused ? "refused" : "accepted");
        Sym.check(refused != legal, "capacities and load factors out of range are refused, and only those");
        if (!refused) {
            if (kind < 3) {
                Sym.checkEq(got, 0, "a new collection is empty");
            } else {
                Sym.check(got >= capacity, "a new collection has the capacity asked for");
                Sym.check(got <= 1 << 29, "no capacity exceeds the maximum");
                Sym.check((got & got - 1) == 0, "capacities are powers of two");
            }
        }
    }
}
