package h;

import com.bytefacets.collections.sort.${key.name}${value.name}CompanionSort;
import com.bytefacets.collections.types.${key.name}Type;
import sx.Sym;

/** The companion sort: order, one permutation for both arrays, nothing else touched. */
public final class ${key.name}${value.name}SortH {
    private ${key.name}${value.name}SortH() {}

    public static void run() {
        switch (Sym.param("mode", 0)) {
            case 0:
                any();
                break;
            case 1:
                few();
                break;
            case 2:
                large();
                break;
            default:
                refuse();
                break;
        }
    }

    private static ${key.name}Type.Cmp cmp(final int which) {
        switch (which) {
            case 0:
                return ${key.name}Type.Asc;
            case 1:
                return (a, b) -> ${key.name}Type.Asc.compare(b, a);
            default:
                // the size of a comparison's result means nothing
                return (a, b) -> {
                    final int r = ${key.name}Type.Asc.compare(a, b);
                    return r < 0 ? Integer.MIN_VALUE : r > 0 ? Integer.MAX_VALUE : 0;
                };
        }
    }

    private static ${value.t} tag(final int i, final int mark) {
        return ${value.of("i", "mark")};
    }

    private static void sort(final ${key.t}[] pri, final int off, final int len, final int which) {
        final ${key.name}Type.Cmp cmp = cmp(which);
        final ${key.t}[] was = new ${key.t}[pri.length];
        final ${value.t}[] sec = new ${value.t}[pri.length];
        final ${value.t}[] tags = new ${value.t}[pri.length];
        final int mark = ${(value.name == "Bool")?string("len == 0 ? 0 : off + Sym.choose(len)", "0")};
        for (int i = 0; i < pri.length; i++) {
            was[i] = pri[i];
            tags[i] = tag(i, mark);
            sec[i] = tags[i];
        }
        ${key.name}${value.name}CompanionSort.sort(pri, sec, off, len, cmp);
        for (int i = 0; i < pri.length; i++) {
            if (i < off || i >= off + len) {
                ${key.check("pri[i]", "was[i]", "nothing outside the range is touched")};
                ${value.check("sec[i]", "tags[i]", "nothing outside the range is touched in the companion")};
            } else if (i > off) {
                Sym.check(cmp.compare(pri[i - 1], pri[i]) <= 0, "the range is in order");
            }
        }
        final boolean[] seen = new boolean[pri.length];
        for (int i = off; i < off + len; i++) {
            <#if value.name == "Bool">
            if (sec[i]) {
                Sym.check(!seen[0], "no companion is duplicated");
                seen[0] = true;
                ${key.check("pri[i]", "was[mark]", "each element keeps its companion")};
            }
            <#else>
            int from = -1;
            for (int j = off; j < off + len; j++) {
                if (sec[i] == tags[j]) {
                    from = j;
                }
            }
            Sym.check(from >= 0, "every companion comes from the range");
            Sym.check(!seen[from], "no companion is duplicated");
            seen[from] = true;
            ${key.check("pri[i]", "was[from]", "each element keeps its companion")};
            </#if>
        }
        <#if value.name == "Bool">
        Sym.check(seen[0] || len == 0, "no companion is lost");
        </#if>
        Sym.cover("sorted");
    }

    /** Any elements at all. */
    private static void any() {
        final int len = Sym.choose(Sym.param("most", 4) + 1);
        final int off = Sym.choose(2);
        final ${key.t}[] pri = new ${key.t}[off + len + 1];
        for (int i = off; i < off + len; i++) {
            pri[i] = ${key.any};
        }
        sort(pri, off, len, Sym.choose(Sym.param("cmps", 3)));
    }

    private static ${key.t} key(final int i) {
        return ${key.ordered("i")};
    }

    /** Elements of a few values, with many ties. */
    private static void few() {
        final int len = Sym.param("len", 7);
        final int off = Sym.param("off", 1);
        final ${key.t}[] pri = new ${key.t}[off + len + 1];
        for (int i = off; i < off + len; i++) {
            pri[i] = key(<#if key.ref || key.name == "Float" || key.name == "Double">Sym.choose(Sym.param("values", 3))<#else>Sym.range(0, Sym.param("values", 3) - 1)</#if>);
        }
        sort(pri, off, len, Sym.param("cmp", 0));
    }

    /** Long arrays of a known shape with some elements of any value in any place. */
    private static void large() {
        final int len = Sym.param("len", 41);
        final int off = Sym.param("off", 1);
        final ${key.t}[] pri = new ${key.t}[off + len + 1];
        final int shape = Sym.choose(Sym.param("shapes", 6));
        for (int i = 0; i < len; i++) {
            final int v;
            switch (shape) {
                case 0:
                    v = i;
                    break;
                case 1:
                    v = len - i;
                    break;
                case 2:
                    v = 7;
                    break;
                case 3:
                    v = i % 5;
                    break;
                case 4:
                    v = i < len / 2 ? i : len - i;
                    break;
                default:
                    v = i * 17 % len;
                    break;
            }
            pri[off + i] = key(v);
        }
        for (int k = 0; k < Sym.param("any", 1); k++) {
            pri[off + Sym.choose(len)] = ${key.any};
        }
        sort(pri, off, len, Sym.param("cmp", 0));
    }

    /** Ranges that do not fit are refused, and nothing else. */
    private static void refuse() {
        final ${key.t}[] pri = new ${key.t}[Sym.choose(4)];
        final ${value.t}[] sec = new ${value.t}[Sym.choose(4)];
        final ${key.t}[] was = new ${key.t}[pri.length];
        final ${value.t}[] tags = new ${value.t}[sec.length];
        for (int i = 0; i < pri.length; i++) {
            pri[i] = key(3 - i);
            was[i] = pri[i];
        }
        for (int i = 0; i < sec.length; i++) {
            sec[i] = tag(i, 1);
            tags[i] = sec[i];
        }
        int off = Sym.anyInt();
        int len = Sym.anyInt();
        boolean fits = false;
        for (int o = 0; o <= pri.length; o++) {
            for (int l = 0; o + l <= pri.length && o + l <= sec.length; l++) {
                if (Sym.and(off == o, len == l)) {
                    fits = true;
                    off = o;
                    len = l;
                }
            }
        }
        boolean refused = false;
        try {
            ${key.name}${value.name}CompanionSort.sort(pri, sec, off, len, ${key.name}Type.Asc);
        } catch (IllegalArgumentException e) {
            refused = true;
        }
        Sym.cover(refused ? "refused" : "accepted");
        Sym.check(refused != fits, "ranges that do not fit are refused, and only those");
        if (refused) {
            for (int i = 0; i < pri.length; i++) {
                ${key.check("pri[i]", "was[i]", "a refused call changes nothing")};
            }
            for (int i = 0; i < sec.length; i++) {
                ${value.check("sec[i]", "tags[i]", "a refused call changes nothing")};
            }
        }
    }
}
