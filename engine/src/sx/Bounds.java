package sx;

import java.util.List;

/** What the jobs of each property are bounded by, in words; written into the evidence. */
final class Bounds {
    private Bounds() {}

    static final List<String> COMMON = List.of(
            "the symbolic interpreter in /verif/engine follows the JVM (sampled paths are replayed on a real JVM on every run and must agree)",
            "Z3 and javac are right",
            "identityHashCode, String.format and a few other JDK natives are summarised as listed in DESIGN.md",
            "memory is never exhausted");

    private static final String TABLE = "Keys are symbolic (all values of the type; strings of two Latin-1 characters, objects with symbolic "
            + "hash codes and equality), tables start with capacity 1 to 3 and grow; histories have any length over the pool of keys where the job is complete. ";

    private static final String CROWD = " Also maps of 20 to 40 fixed keys and one key of any value (capacities 1 to 64, load factors 0.3 to 1, and with 10 keys every multiple of 1/16), thinned out in "
            + "five patterns, then filled again, cleared, copied, traversed or reserved.";

    static String of(final String prop) {
        switch (prop) {
            case "C01":
            case "C02":
                return TABLE + "Pool of 3 keys for each of the 9 key types, 3 with initial capacity 2 and load factor 1, 2 with capacity 3 and load factor 0.3." + CROWD;
            case "C03":
                return TABLE + "Pool of 3 keys and symbolic values, 10 key/value pairs that use every type on both sides." + CROWD;
            case "C04":
                return TABLE + "Pool of 3 keys for sets, 2 for maps; any subset is removed by the callback." + CROWD;
            case "C05":
                return TABLE + "Pool of 2 keys with up to 2 outside changes while an iterator is in use, 3 keys without." + CROWD;
            case "C06":
                return TABLE + "Pool of 2 keys in source and target, initial capacities 1, 2 and 4, any hash and equality strategy consistent with each other." + CROWD;
            case "C07":
                return TABLE + "Pool of 2 keys (3 with a bound on the number of states); pair collections: 2 or 3 pairs over 2 x 2 keys, with a bound on the number of states. Relations of up to 42 pairs with one pair of any keys." + CROWD;
            case "C08":
                return TABLE + "Pool of 2 keys with two custom strategies (uninterpreted hash codes, constant within classes of the configured equality), 3 with one; sets and maps to int.";
            case "C09":
                return "Heaps with up to 3 elements over histories of any length (where complete), initial capacity 1; single operations from any heap of up to 5 or 6 elements (7 for removals from every pair, 8 for one pair) "
                        + "with symbolic keys; comparators: default, ascending, descending, custom; 10 key/value pairs. Also heaps of 18 to 36 elements with fixed keys and one of any key, thinned out in four patterns, then rekeyed, reordered or filled again, and drained.";
            case "C10":
            case "C11":
                return "Heaps with up to 3 elements, symbolic keys and values, initial capacity 1, histories of any length where the job is complete; 10 key/value pairs. "
                        + "Also heaps of 18 to 36 elements with fixed keys and one of any key.";
            case "C12":
                return "Up to 5 elements at a time (9 for long) with symbolic values, initial capacities 1, 2 and 3, histories of any length where the job is complete; all 10 types. "
                        + "Also 33 to 70 symbolic values added in four patterns, thinned out to any number, and up to twice as many added again.";
            case "C13":
            case "C14":
                return "2 lists (3 for int) and up to 3 elements at a time with symbolic values, initial sizes 0, 1 and 2, histories of any length where the job is complete; all 10 types. "
                        + "Also 5 lists of 30 symbolic values in all (20 lists of 60 for int), filled in three patterns, thinned out or cleared, filled again and drained.";
            case "C15":
                return "Up to 5 elements (7 for int) with symbolic values, initial capacities 1 and 3, histories of any length where the job is complete; all 10 types. "
                        + "Also 70 symbolic values (100 for int) and as many again, with ensureSize of any size or clear in between.";
            case "C16":
                return "Arrays of length 0 to 4 with symbolic contents and sizes from -3 to 18, and growth from any length to any size with the elements beyond the probed positions left out; all 10 types.";
            case "C17":
                return "Two symbolic indexes over the whole int range with one set each, chunk sizes from 1 to 2^30; and histories of any length over 2 of 9 indexes, "
                        + "chunk sizes 1 to 5, initial sizes 0 to 4; all 10 types.";
            case "C18":
                return "Two symbolic cells over all rows, fixed sets of chunk sizes and fields; histories of any length over 2 cells of 5 rows; all constructor arguments for refusals; all 10 types.";
            case "C19":
                return "Any array of up to 4 elements (3 for floating point and references, 6 for int), 7 and 8 elements with 2 or 3 distinct values, 12 to 41 elements with one or two "
                        + "symbolic among concrete ones; every offset and length for refusals; 10 pairs.";
            case "C20":
            case "C21":
                return "Symbolic distinct keys in [0, 9) over at most 3 x 3 keys and 4 pairs, initial capacities 1 to 4, counts on and off; histories of any length where the job is complete, "
                        + "otherwise breadth first up to a number of states. Keys from 300 and from 70,000 on; relations of up to 60 pairs, one of any keys, thinned out in five patterns and filled again.";
            case "C22":
                return "All values, all positions in an array of 140,000 bytes, and every position close to the ends of a short one; byte, short, char, int, long, float, double, bool.";
            case "C23":
                return "All values; no bound.";
            case "C24":
                return "All triples of values; strings and objects with their symbolic order, strings of up to two Latin-1 characters; no bound for the numeric types.";
            case "C25":
                return "All pairs of values; strings of two Latin-1 characters; no bound for the numeric types.";
            case "C26":
                return "All values of every box, bool, char, null and an unrelated object, without a bound; text of up to 3 Latin-1 characters (5 for bool and char) and every text that differs from the limits of the type in its last two characters; parsing of float and double text is not covered.";
            case "C27":
                return "All dates of the years 0 to 9999, all times of the day, all ints for refusals; no further bound.";
            case "C28":
                return "4 calls (3 with a clock that may fail) after 0, 1, 2, 4094 to 4097, 8192 and 8195 ids in one millisecond; any 41-bit clock reading; up to 3 readings of waiting per call.";
            case "C29":
                return "60 and 4096 ids in one millisecond, node names of 0, 1 and 7 Latin-1 characters, any 41-bit clock reading, any id to parse; "
                        + "any long as a given node id and any 41-bit epoch (through the constructors of the package, as long as it has them).";
            case "C30":
                return "2 threads with 1 or 2 calls and up to 2 preemptions (3 with a clock that goes back), 3 threads with 1 call and 1 preemption, after 0 or 4095 ids in a millisecond; "
                        + "a preemption is possible before every access to a field, lock or atomic of the library; interleavings are sequentially consistent.";
            case "C31":
                return "All arguments for the arithmetic; all int capacities and all double load factors for refusals; accepted capacities up to 33 (larger ones only allocate more).";
            case "C33":
                return "1x3, 2x2 and 3x1 pairs of any keys below 2 or 3 (many-to-one: any right keys), histories of any length, every subset of the visited pairs removed.";
            case "C32":
                return "2 to 5 objects per kind of collection (set, map, heap, deque, multi-headed deque, stores, vector), histories of any length where the job is complete; generic and string types.";
            default:
                return "";
        }
    }
}
