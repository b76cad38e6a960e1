package h;

import com.bytefacets.collections.arrays.${type.name}Array;
import sx.Sym;

/** The helpers that make, copy, grow and fill arrays. */
public final class ${type.name}ArrayH {
    private ${type.name}ArrayH() {}

    private static ${type.t}[] any(final int n) {
        final ${type.t}[] a = new ${type.t}[n];
        for (int i = 0; i < n; i++) {
            a[i] = ${type.any};
        }
        return a;
    }

    /** b holds a's values, then v up to its end. */
    private static void extended(final ${type.t}[] b, final ${type.t}[] a, final ${type.t} v) {
        for (int i = 0; i < b.length; i++) {
            if (i < a.length) {
                ${type.check("b[i]", "a[i]", "an old element stays in place")};
            } else {
                ${type.check("b[i]", "v", "a new position holds the initial value")};
            }
        }
    }

    private static void unchanged(final ${type.t}[] a, final ${type.t}[] before) {
        for (int i = 0; i < a.length; i++) {
            ${type.check("a[i]", "before[i]", "the given array stays as it is")};
        }
    }

    private static void ensure() {
        final ${type.t}[] a = any(Sym.choose(Sym.param("lengths", 5)));
        final ${type.t}[] before = a.clone();
        final int size = Sym.range(-3, Sym.param("to", 18));
        final ${type.t} v = ${type.any};
        final int how = Sym.choose(4);
        final ${type.t}[] b;
        switch (how) {
            case 0: b = ${type.name}Array.ensureSize(a, size); break;
            case 1: b = ${type.name}Array.ensureSize(a, size, v); break;
            case 2: b = ${type.name}Array.ensureEntry(a, size - 1); break;
            default: b = ${type.name}Array.ensureEntry(a, size - 1, v); break;
        }
        Sym.observe(b.length);
        unchanged(a, before);
        if (size <= a.length) {
            Sym.cover("enough");
            Sym.check(b == a, "an array that suffices is returned as it is");
        } else {
            Sym.cover("grown");
            Sym.check(b != a && b.length > a.length, "the copy is longer");
            Sym.check(b.length >= size, "the copy accommodates the size");
            extended(b, a, how % 2 == 0 ? (${type.t}) ${type.zero} : v);
        }
    }

    private static final int[] LENGTHS = {0, 1, 2, 3, 5, 6, 7, 12, 100, 1000};

    /** However large the size is: a large enough array or no memory, and an end. */
    private static void huge() {
        final ${type.t}[] a = new ${type.t}[LENGTHS[Sym.choose(LENGTHS.length)]];
        final ${type.t} v = ${type.any};
        if (a.length > 0) {
            a[a.length - 1] = v;
        }
        final int size = Sym.anyInt();
        Sym.assume(size > 0);
        final ${type.t}[] b;
        try {
            b = Sym.choose(2) == 0 ? ${type.name}Array.ensureSize(a, size) : ${type.name}Array.ensureEntry(a, size - 1);
        } catch (OutOfMemoryError e) {
            Sym.prune();
            return;
        }
        Sym.cover("grown to any size");
        Sym.check(b.length >= size, "the array accommodates the size");
        if (a.length > 0) {
            ${type.check("b[a.length - 1]", "v", "an old element stays in place")};
            Sym.checkEq(b == a, size <= a.length, "an array that suffices is returned as it is");
        }
        if (size > a.length) {
            ${type.check("b[a.length]", type.zero, "a new position holds the default")};
            ${type.check("b[b.length - 1]", type.zero, "a new position holds the default")};
        }
    }

    private static void copy() {
        final ${type.t}[] a = any(Sym.choose(5));
        final ${type.t}[] before = a.clone();
        final int n = Sym.concrete(Sym.range(0, 9));
        final ${type.t} v = ${type.any};
        final int how = Sym.choose(3);
        final ${type.t}[] b;
        switch (how) {
            case 0: b = ${type.name}Array.copyOf(a, n); break;
            case 1: b = ${type.name}Array.copyOf(a, n, v); break;
            default: b = ${type.name}Array.resize(a, n); break;
        }
        Sym.checkEq(b.length, n, "the length of the copy");
        Sym.check(b != a, "a copy is a new array");
        extended(b, a, how == 1 ? v : (${type.t}) ${type.zero});
        unchanged(a, before);
    }

    private static void create() {
        final int n = Sym.concrete(Sym.range(0, 5));
        final ${type.t} v = ${type.any};
<#if type.generic>
        final int how = Sym.choose(3);
        final Object[] b = how == 0 ? GenericArray.create(n) : how == 1 ? GenericArray.create(n, v)
            : GenericArray.<Object>create(Object.class, n);
        if (how == 2) {
            final Vals.Obj[] t = GenericArray.create(Vals.Obj.class, n);
            Sym.checkEq(t.length, n, "the length of a typed array");
        }
<#else>
        final int how = Sym.choose(2);
        final ${type.t}[] b = how == 0 ? ${type.name}Array.create(n) : ${type.name}Array.create(n, v);
</#if>
        Sym.checkEq(b.length, n, "the length of a new array");
        for (int i = 0; i < n; i++) {
<#if type.name == "Float" || type.name == "Double">
            // 0.0 and -0.0 are both the default value
            Sym.check(how == 1 ? v == 0 ? b[i] == 0 : ${type.box}.${type.name?lower_case}ToRaw${(type.name == "Float")?string("Int", "Long")}Bits(b[i]) == ${type.box}.${type.name?lower_case}ToRaw${(type.name == "Float")?string("Int", "Long")}Bits(v) : b[i] == 0, "the elements of a new array");
<#else>
            ${type.check("b[i]", "how == 1 ? v : (" + type.t + ") " + type.zero, "the elements of a new array")};
</#if>
        }
    }

    private static void fill() {
        final ${type.t}[] a = any(Sym.choose(6));
        final ${type.t}[] before = a.clone();
        final ${type.t} v = ${type.any};
        int from = 0;
        int n = a.length;
        if (Sym.choose(2) == 0) {
            ${type.name}Array.fill(a, v);
        } else {
            from = Sym.concrete(Sym.range(0, a.length));
            n = Sym.concrete(Sym.range(0, a.length - from));
            ${type.name}Array.fill(a, v, from, n);
        }
        for (int i = 0; i < a.length; i++) {
            if (i >= from && i < from + n) {
                ${type.check("a[i]", "v", "a position that is to be filled")};
            } else {
                ${type.check("a[i]", "before[i]", "a position that is not to be filled")};
            }
        }
    }

    public static void run() {
        switch (Sym.param("part", 0)) {
            case 0: ensure(); break;
            case 1: huge(); break;
            case 2: copy(); break;
            case 3: create(); break;
            default: fill(); break;
        }
    }
}
