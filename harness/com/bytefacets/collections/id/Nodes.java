package com.bytefacets.collections.id;

import java.util.function.LongSupplier;

/** The generators with a given node id, which the package keeps to itself. */
public final class Nodes {
    private Nodes() {}

    public static Snowflake of(final long node, final LongSupplier clock) {
        return new Snowflake(node, clock);
    }

    public static Snowflake of(final long node, final long epoch, final LongSupplier clock) {
        return new Snowflake(node, epoch, clock);
    }
}
