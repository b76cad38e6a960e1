package h;

import com.bytefacets.collections.id.Nodes;
import com.bytefacets.collections.id.Snowflake;
import sx.Sym;

/** Generators for any given node id and epoch. */
public final class SnowflakeNodeH {
    private SnowflakeNodeH() {}

    public static void run() {
        final long node = Sym.anyLong();
        final boolean own = Sym.choose(2) == 0;
        final long epoch = own ? Sym.anyLong() & (1L << 41) - 1 : 1676731200000L;
        final long since = Sym.anyLong() & (1L << 41) - 1;
        final Snowflake s;
        try {
            s = own ? Nodes.of(node, epoch, () -> epoch + since) : Nodes.of(node, () -> epoch + since);
        } catch (IllegalArgumentException e) {
            Sym.check(node < 0 || node > 1023, "every node id in [0, 1023] is possible");
            Sym.cover("refused");
            return;
        }
        Sym.check(node >= 0 && node <= 1023, "node ids are in [0, 1023]");
        for (int i = 0; i < 3; i++) {
            final long id = s.nextId();
            final long[] p = s.parse(id);
            Sym.checkEq(p[0], epoch + since, "an id decodes to the time of the clock");
            Sym.checkEq(p[1], node, "an id decodes to the node it was made by");
            Sym.checkEq(p[2], (long) i, "an id decodes to its number within the millisecond");
            Sym.check(id >= 0, "ids are not negative");
        }
        Sym.cover("decoded");
    }
}
