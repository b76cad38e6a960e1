package h;

import com.bytefacets.collections.types.CompareMethod;
import com.bytefacets.collections.types.${type.name}Type;
import sx.Sym;

/** The comparators of a type over any three values. */
public final class ${type.name}CompareH {
    private ${type.name}CompareH() {}

    private static ${type.t} value() {
<#if type.ref>
        if (Sym.choose(2) == 1) {
            Sym.cover("null");
            return null;
        }
</#if>
        return ${type.any};
    }

    private static int sign(final int n) {
        return Integer.signum(n);
    }

    public static void run() {
        final CompareMethod[] methods = CompareMethod.values();
        final CompareMethod method = methods[Sym.choose(methods.length)];
        final boolean abs = method == CompareMethod.AscendingAbsolute || method == CompareMethod.DescendingAbsolute;
        final boolean desc = method == CompareMethod.Descending || method == CompareMethod.DescendingAbsolute;
<#if type.name == "Generic">
        if (abs) {
            Sym.prune();
        }
        final GenericType.Cmp cmp = desc ? GenericType.Desc : GenericType.Asc;
<#elseif type.name == "Bool">
        if (abs) {
            boolean refused = false;
            try {
                ${type.name}Type.comparatorFor(method);
            } catch (RuntimeException e) {
                refused = true;
                Sym.cover("refused");
            }
            Sym.check(refused, "a method the type lacks is refused");
            return;
        }
        final BoolType.Cmp constant = desc ? BoolType.Desc : BoolType.Asc;
<#elseif type.name == "String">
        final StringType.Cmp constant = abs ? desc ? StringType.DescInsensitive : StringType.AscInsensitive
                : desc ? StringType.Desc : StringType.Asc;
<#else>
        final ${type.name}Type.Cmp constant = abs ? desc ? ${type.name}Type.AbsDesc : ${type.name}Type.AbsAsc
                : desc ? ${type.name}Type.Desc : ${type.name}Type.Asc;
</#if>
<#if type.name != "Generic">
        final ${type.name}Type.Cmp cmp = Sym.choose(2) == 0 ? constant : ${type.name}Type.comparatorFor(method);
</#if>
        final ${type.t} a = value();
        final ${type.t} b = value();
        final int ab = sign(cmp.compare(a, b));
        final int ba = sign(cmp.compare(b, a));
        Sym.observe(ab);
        Sym.checkEq(ab, -ba, "antisymmetric");
        Sym.checkEq(cmp.compare(a, a), 0, "a value compares equal to itself");
        // the order itself
        final int up = desc ? ba : ab;
        switch (Sym.choose(2)) {
            case 0:
<#if type.name == "Bool">
                Sym.checkEq(up, a == b ? 0 : a ? -1 : 1, "true before false");
<#elseif type.name == "Float" || type.name == "Double">
                Sym.check(!(abs ? Math.abs(a) < Math.abs(b) : a < b) || up < 0, "the lesser number first");
                Sym.check(!(abs ? Math.abs(a) > Math.abs(b) : a > b) || up > 0, "the greater number last");
                if (abs) {
                    Sym.check(!(Math.abs(a) == Math.abs(b)) || up == 0, "numbers of the same magnitude compare equal");
                } else {
                    Sym.check(!(a == b && a != 0) || up == 0, "the same numbers compare equal");
                }
                // NaN has one place: among themselves all of them compare equal
                Sym.check(!(a != a && b != b) || up == 0, "NaN compares equal to NaN");
                Sym.check(!(a != a && b == b) || up != 0, "NaN does not compare equal to a number");
<#elseif type.name == "Char">
                Sym.checkEq(up, a < b ? -1 : a > b ? 1 : 0, "the numeric order");
<#elseif type.name == "Generic" || type.name == "String">
                if (a == null || b == null) {
                    final int nulls = a == b ? 0 : a == null ? 1 : -1;
                    if (desc) {
                        // the reverse of nulls last
                        Sym.checkEq(ab, -nulls, "the reverse of nulls last");
                    } else {
                        Sym.checkEq(ab, nulls, "nulls last");
                    }
                } else {
<#if type.name == "String">
                    Sym.checkEq(up, sign(abs ? a.compareToIgnoreCase(b) : a.compareTo(b)), "the order of strings");
<#else>
                    Sym.checkEq(up, sign(((Vals.Obj) a).compareTo((Vals.Obj) b)), "the order of the objects themselves");
</#if>
                }
<#else>
                if (abs) {
                    final long x = a;
                    final long y = b;
                    // the magnitude as an unsigned number
                    final int expected = Long.compareUnsigned(x < 0 ? -x : x, y < 0 ? -y : y);
                    Sym.checkEq(up, sign(expected), "the order of magnitudes");
                } else {
                    Sym.checkEq(up, a < b ? -1 : a > b ? 1 : 0, "the numeric order");
                }
</#if>
                break;
            default:
                final ${type.t} c = value();
                final int bc = sign(cmp.compare(b, c));
                final int ac = sign(cmp.compare(a, c));
                Sym.check(!(ab <= 0 && bc <= 0) || ac <= 0, "transitive");
                Sym.check(!(ab < 0 && bc <= 0) || ac < 0, "strictly transitive");
                Sym.check(!(ab <= 0 && bc < 0) || ac < 0, "strictly transitive");
                break;
        }
    }
}
