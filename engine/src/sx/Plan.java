package sx;

import java.util.ArrayList;
import java.util.List;

/** Which harnesses decide which property, and within which bounds. */
final class Plan {
    static final class Spec {
        final List<Job> jobs = new ArrayList<>();
        String bounds = "";
        final List<String> assumptions = new ArrayList<>();

        Job job(final String harness) {
            final Job j = new Job("h." + harness);
            jobs.add(j);
            return j;
        }
    }

    static final String[] KEYS = {"Double", "Float", "Long", "String", "Generic", "Int", "Char", "Short", "Byte"};

    /** Every type once as key and once as value (there are no maps with boolean keys). */
    static final String[] PAIRS = {"DoubleFloat", "FloatLong", "LongInt", "StringDouble", "GenericString", "IntGeneric",
        "IntChar", "CharShort", "ShortByte", "ByteBool"};

    static final String[] ALL = {"Double", "Float", "Long", "String", "Generic", "Int", "Char", "Short", "Byte", "Bool"};

    private Plan() {}

    /** Maps with many keys. */
    private static void crowd(final Spec s, final int about, final boolean thorough) {
        for (String p : PAIRS) {
            s.job(p + "CrowdH").with("about", about).cover("done");
        }
        s.job("IntGenericCrowdH").with("about", about).with("n", thorough ? 100 : 40).cover("done");
        s.job("LongIntCrowdH").with("about", about).with("stride", 64).cover("done");
        s.job("CharShortCrowdH").with("about", about).with("n", 40).with("cap", 64).with("load", 100).cover("done");
        s.job("IntCharCrowdH").with("about", about).with("n", 30).with("cap", 3).with("load", 30).with("stride", -3).cover("done");
        s.job("ShortByteCrowdH").with("about", about).with("n", thorough ? 16 : 10).with("load", 0).with("grain", thorough ? 32 : 16).cover("done");
    }

    static Spec spec(final String prop, final boolean thorough) {
        final Spec s = new Spec();
        s.bounds = Bounds.of(prop);
        s.assumptions.addAll(Bounds.COMMON);
        if (prop.compareTo("C01") >= 0 && prop.compareTo("C07") <= 0) {
            crowd(s, Integer.parseInt(prop.substring(1)), thorough);
        }
        switch (prop) {
            case "LIB": // no property: what of the library the engine can execute
                for (int what = 0; what < 16; what++) {
                    s.job("LibH").with("what", what);
                }
                break;
            case "C01", "C02": {
                final int e = prop.equals("C01") ? 0 : 1;
                for (String k : KEYS) {
                    s.job(k + "SetH").with("keys", 3).with("cap", 1).with("entries", e);
                }
                s.job("IntSetH").with("keys", 3).with("cap", 2).with("load", 100).with("entries", e);
                if (thorough) {
                    s.job("CharSetH").with("keys", 4).with("cap", 2).with("entries", e).states(500_000);
                }
                s.job("ShortSetH").with("keys", 2).with("cap", 3).with("load", 30).with("entries", e);
                break;
            }
            case "C03":
                for (String p : PAIRS) {
                    s.job(p + "MapH").with("keys", 3).with("cap", 1);
                }
                s.job("ShortByteMapH").with("keys", 3).with("cap", 2);
                break;
            case "C04":
                for (String k : KEYS) {
                    s.job(k + "TraverseH").with("keys", 3).with("cap", 1);
                }
                for (String p : PAIRS) {
                    s.job(p + "TraverseH").with("keys", 2).with("cap", 1);
                }
                break;
            case "C05":
                for (String k : KEYS) {
                    s.job(k + "IterH").with("keys", 2).with("cap", 1);
                }
                s.job("IntIterH").with("keys", 3).with("cap", 1).with("changes", 0);
                break;
            case "C08":
                for (String k : List.of("Double", "Float", "String", "Generic")) {
                    for (int map = 0; map < 2; map++) {
                        s.job(k + "StratH").with("keys", 2).with("cap", 1).with("custom", 1).with("map", map);
                        s.job(k + "StratH").with("keys", 3).with("cap", 1).with("custom", 0).with("map", map);
                    }
                    s.job(k + "StratH").with("keys", 3).with("cap", 1).with("custom", 1).with("map", 0).with("change", 0);
                }
                break;
            case "C06":
                for (String k : KEYS) {
                    s.job(k + "CopyH").with("keys", 2).with("capA", 1).with("capB", 1);
                    if ("Double Float String Generic".contains(k)) {
                        s.job(k + "CopyH").with("keys", 2).with("capA", 1).with("capB", 1).with("custom", 1);
                    }
                }
                s.job("IntCopyH").with("keys", 2).with("capA", 1).with("capB", 4);
                s.job("IntCopyH").with("keys", 2).with("capA", 4).with("capB", 1).with("loadA", 100);
                for (String p : PAIRS) {
                    s.job(p + "CopyH").with("keys", 2).with("capA", 1).with("capB", 2);
                }
                s.job("IntLongCopyH").with("keys", 2).with("capA", 4).with("capB", 1);
                break;
            case "C07":
                for (String k : KEYS) {
                    s.job(k + "ReserveH").with("keys", 2).with("cap", 1);
                }
                for (String p : PAIRS) {
                    s.job(p + "ReserveH").with("keys", 2).with("cap", 1);
                }
                s.job("IntReserveH").with("keys", 3).with("cap", 2).states(thorough ? 400_000 : 50_000);
                for (int many = 0; many < 2; many++) {
                    s.job("BiCrowdH").with("many", many).with("reserve", 1).with("counts", 0).cover("done");
                    s.job("BiH").with("about", 7).with("many", many).with("pairs", 2).states(thorough ? 1_000_000 : 30_000).cover("reserved", "freed");
                    s.job("BiH").with("about", 7).with("many", many).with("pairs", 3).with("counts", 1).with("to", 2)
                            .states(thorough ? 1_000_000 : 30_000).cover("reserved", "freed");
                }
                break;
            case "C09", "C10", "C11": {
                final int about = Integer.parseInt(prop.substring(1));
                for (String p : PAIRS) {
                    s.job(p + "HeapH").with("elements", 3).with("cap", 1).with("about", about);
                }
                for (String p : about == 9 ? PAIRS : new String[] {"IntGeneric", "StringDouble", "ShortByte", "GenericString"}) {
                    s.job(p + "HeapCrowdH").with("about", about).cover("drained", "filled again");
                }
                s.job("LongIntHeapCrowdH").with("about", about).with("spread", 4).with("n", 30).cover("drained", "filled again");
                s.job("ByteBoolHeapCrowdH").with("about", about).with("n", 36).with("cap", 16).cover("drained", "filled again");
                if (about == 9) {
                    // a misplaced element shows at the head from seven elements on
                    for (int op = 0; op < 4; op++) {
                        s.job("ByteIntHeapStepH").with("elements", 7).with("exact", 1).with("op", op);
                    }
                    s.job("IntByteHeapStepH").with("elements", 8).with("exact", 1).with("op", 0);
                    if (thorough) {
                        s.job("ByteIntHeapStepH").with("elements", 9).with("exact", 1).with("op", 0);
                        s.job("IntByteHeapStepH").with("elements", 8).with("exact", 1).with("op", 1);
                    }
                    for (String p : PAIRS) {
                        s.job(p + "HeapStepH").with("elements", 7).with("exact", 1).with("op", 0);
                    }
                    for (String p : PAIRS) {
                        s.job(p + "HeapStepH").with("elements", p.startsWith("Int") || p.startsWith("Byte") || thorough ? 6 : 5);
                    }
                }
                break;
            }
            case "C12":
                for (String k : ALL) {
                    s.job(k + "DequeH").with("most", 5).with("cap", 1).cover("empty", "cleared");
                }
                s.job("IntDequeH").with("most", 5).with("cap", 3).cover("empty", "cleared");
                s.job("LongDequeH").with("most", 9).with("cap", 2).cover("empty", "cleared");
                for (String k : ALL) {
                    s.job(k + "DequeCrowdH").cover("drained");
                }
                s.job("IntDequeCrowdH").with("n", 70).with("cap", 16).cover("drained");
                s.job("LongDequeCrowdH").with("n", 33).with("cap", 5).cover("drained");
                break;
            case "C13", "C14": {
                final int about = Integer.parseInt(prop.substring(1));
                for (String k : ALL) {
                    s.job(k + "HydraH").with("lists", 2).with("most", 3).with("about", about);
                }
                s.job("IntHydraH").with("lists", 3).with("most", 3).with("queues", 0).with("cap", 2).with("about", about);
                for (String k : ALL) {
                    s.job(k + "HydraCrowdH").with("about", about).cover("emptied lists", "drained");
                }
                s.job("IntHydraCrowdH").with("about", about).with("n", 60).with("lists", 20).with("queues", 4).with("cap", 16).cover("emptied lists",
                    "drained");
                break;
            }
            case "C15":
                for (String k : ALL) {
                    s.job(k + "VectorH").with("most", 5).with("cap", 1).cover("cleared");
                }
                s.job("IntVectorH").with("most", 7).with("cap", 3).cover("cleared");
                for (String k : ALL) {
                    s.job(k + "VectorCrowdH").cover("done");
                }
                s.job("IntVectorCrowdH").with("n", 100).with("cap", 16).cover("done");
                break;
            case "C16":
                for (String k : ALL) {
                    for (int part = 0; part < 5; part++) {
                        s.job(k + "ArrayH").with("part", part).cover(new String[][] {{"enough", "grown"}, {"grown to any size"}, {}, {},
                            {}}[part]);
                    }
                }
                break;
            case "C17":
                for (String k : ALL) {
                    s.job(k + "StoreH").with("large", 1).cover("any index");
                    s.job(k + "StoreH").cover("value read", "default read");
                }
                break;
            case "C18":
                for (String k : ALL) {
                    for (int c = 0; c < (thorough || k.equals("Double") || k.equals("Generic") ? 4 : 1); c++) {
                        s.job(k + "MatrixH").with("mode", 1).with("config", c).cover("any cell");
                    }
                    s.job(k + "MatrixH").cover("value read", "default read", "field refused");
                    s.job(k + "MatrixH").with("mode", 2).cover("refused", "accepted");
                }
                break;
            case "C19":
                for (String p : PAIRS) {
                    final boolean heavy = p.startsWith("Double") || p.startsWith("Float") || p.startsWith("String") || p.startsWith("Generic");
                    s.job(p + "SortH").with("most", heavy ? 3 : 4).cover("sorted");
                    s.job(p + "SortH").with("mode", 1).with("len", 7).with("values", 2).cover("sorted");
                    s.job(p + "SortH").with("mode", 2).with("len", 41).cover("sorted");
                    s.job(p + "SortH").with("mode", 3).cover("refused", "accepted");
                }
                s.job("IntCharSortH").with("most", 6).with("cmps", 1).cover("sorted");
                s.job("IntCharSortH").with("mode", 1).with("len", 7).with("values", 3).cover("sorted");
                s.job("IntCharSortH").with("mode", 1).with("len", 8).with("values", 3).cover("sorted");
                s.job("IntCharSortH").with("mode", 2).with("len", 12).with("any", 2).with("shapes", thorough ? 6 : 3).cover("sorted");
                break;
            case "C33":
                for (int many = 0; many < 2; many++) {
                    final int states = thorough ? 1_000_000 : 6_000;
                    s.job("BiH").with("about", 33).with("many", many).with("lefts", 1).with("rights", 3).with("counts", 1).with("to", 3)
                            .states(states).cover("removed by entry", "removed by pair");
                    s.job("BiH").with("about", 33).with("many", many).with("counts", 1).with("to", 2).states(states)
                            .cover("removed by entry", "removed by pair");
                    s.job("BiH").with("about", 33).with("many", many).with("pairs", 3).with("counts", 0).with("to", 2).with("cap", 4)
                            .states(states).cover("removed by entry", "removed by pair");
                    s.job("BiH").with("about", 33).with("many", many).with("lefts", 3).with("rights", 1).with("counts", 1).with("to", 3)
                            .states(states).cover("removed by entry", "removed by pair");
                }
                break;
            case "C20", "C21": {
                final int many = prop.equals("C20") ? 0 : 1;
                final String[] cover = many == 0 ? new String[] {"put again", "entry reused", "left traversal"}
                        : new String[] {"put again", "entry reused", "left traversal", "right traversal"};
                final int states = thorough ? 1_000_000 : 30_000;
                s.job("BiH").with("many", many).with("rights", 3).with("counts", 1).with("to", many == 0 ? 2 : 3).states(states).cover(cover);
                s.job("BiH").with("many", many).with("counts", 1).with("to", 2).states(states).cover(cover);
                s.job("BiH").with("many", many).with("counts", 0).with("to", 2).with("cap", 2).with("capL", 2).with("capR", 2).states(states).cover(cover);
                s.job("BiH").with("many", many).with("pairs", 3).with("cap", 3).cover(cover);
                s.job("BiH").with("many", many).with("lefts", 1).with("rights", 3).with("counts", 1).cover(cover);
                s.job("BiH").with("many", many).with("pairs", 2).with("to", 9).with("counts", 1).with("cap", 4).cover(cover);
                s.job("BiH").with("many", many).with("lefts", 3).with("rights", 1).with("to", 4).cover(cover);
                s.job("BiH").with("many", many).with("pairs", 3).with("base", 300).with("to", 2).states(states / 2).with("counts", 1).cover(cover);
                s.job("BiH").with("many", many).with("pairs", 2).with("rights", 1).with("base", 70_000).with("to", 2).with("counts", 0).cover(cover);
                s.job("BiH").with("many", many).with("capL", 0).with("to", 2).with("pairs", 3).with("counts", 1).states(states / 3).cover(cover);
                s.job("BiCrowdH").with("many", many).cover("done");
                s.job("BiCrowdH").with("many", many).with("cap", 16).with("lefts", 20).with("rights", 3).cover("done");
                s.job("BiH").with("many", many).with("held", 1).with("to", 2).with("pairs", 3).with("counts", 1).states(states / 3).cover(cover);
                break;
            }
            case "C28":
                s.job("SnowflakeH").with("calls", thorough ? 6 : 4).cover("id", "waited", "refused");
                s.job("SnowflakeH").with("calls", thorough ? 5 : 3).with("faults", 1).with("waits", 2).cover("id", "waited", "refused", "failed");
                break;
            case "C29":
                s.job("SnowflakeH").with("mode", 1).with("ids", thorough ? 1000 : 60).cover("decoded");
                s.job("SnowflakeH").with("mode", 1).with("ids", 4096).with("name", 1).cover("decoded");
                s.job("SnowflakeH").with("mode", 2).cover("different nodes");
                s.job("SnowflakeNodeH").optional().cover("refused", "decoded");
                break;
            case "C30":
                for (int used : new int[] {0, 4095}) {
                    s.job("SnowflakeThreadsH").with("used", used).with("calls", 1).with("preemptions", 2).cover("done");
                    s.job("SnowflakeThreadsH").with("used", used).with("calls", 2).with("preemptions", 2).cover("done");
                    s.job("SnowflakeThreadsH").with("used", used).with("calls", 1).with("preemptions", 3).with("back", 1).cover("done");
                    s.job("SnowflakeThreadsH").with("used", used).with("threads", 3).with("preemptions", 1).cover("done");
                }
                break;
            case "C31":
                for (String k : ALL) {
                    s.job(k + "CapacityH").cover("refused", "accepted");
                }
                s.job("CapacityH");
                s.job("CapacityH").with("mode", 1).cover("grown", "refused");
                break;
            case "C32":
                for (String k : new String[] {"Generic", "String"}) {
                    for (int kind = 0; kind < 8; kind++) {
                        final Job j = s.job(k + "RetainH").with("kind", kind).with("objects", new int[] {2, 2, 3, 5, 4, 5, 3, 3}[kind]);
                        switch (kind) {
                            case 0, 1 -> j.cover("removed", "cleared", "copied", "removed through an iterator");
                            case 5 -> j.cover("cleared");
                            case 6, 7 -> j.cover("removed");
                            default -> j.cover("removed", "cleared");
                        }
                    }
                    for (int kind = 0; kind < 2; kind++) {
                        s.job(k + "RetainH").with("kind", kind).with("objects", 3).states(thorough ? 400_000 : 50_000);
                        s.job(k + "RetainH").with("kind", kind).with("objects", 2).with("other", 8).states(thorough ? 400_000 : 20_000);
                    }
                }
                break;
            case "C24":
                for (String k : KEYS) {
                    s.job(k + "CompareH").ite(256);
                }
                s.job("BoolCompareH");
                break;
            case "C22":
                for (String k : KEYS) {
                    if (!k.equals("String") && !k.equals("Generic")) {
                        s.job(k + "CodecH").cover("write", "read");
                    }
                }
                s.job("BoolCodecH").cover("write", "read");
                break;
            case "C23":
                s.job("PackH");
                break;
            case "C25":
                for (String k : KEYS) {
                    s.job(k + "PredicateH");
                }
                s.job("BoolPredicateH").cover("refused");
                break;
            case "C26":
                for (String k : KEYS) {
                    s.job(k + "ConvertH");
                }
                s.job("BoolConvertH");
                break;
            case "C27":
                for (int part = 0; part < 6; part++) {
                    s.job("DateIntH").with("part", part).cover(new String[][] {{"date"}, {}, {"no date", "date read"}, {"time"}, {},
                        {"no time", "time read"}}[part]);
                }
                break;
            default:
                return null;
        }
        return s;
    }
}
