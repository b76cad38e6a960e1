package h;

<#assign ordered = type.name != "Bool" && type.name != "Generic">
import com.bytefacets.collections.types.PredicateMethod;
import com.bytefacets.collections.types.${type.name}Type;
import sx.Sym;

/** Predicates, equality and hash of a type over any two values. */
public final class ${type.name}PredicateH {
    private ${type.name}PredicateH() {}

<#assign p = (type.name == "Generic")?then("String", type.t)>
    private static ${p} operand() {
<#if type.ref>
        if (Sym.choose(2) == 1) {
            return null;
        }
        return h.Vals.anyString();
<#else>
        return ${type.any};
</#if>
    }

    private static ${type.t} value() {
<#if type.ref>
        if (Sym.choose(2) == 1) {
            return null;
        }
</#if>
        return ${type.any};
    }

    public static void run() {
        switch (Sym.choose(3)) {
            case 0:
                predicates();
                break;
            case 1: {
                final ${type.t} a = value();
                final ${type.t} b = value();
                final boolean eq = ${type.name}Type.EqImpl.areEqual(a, b);
                Sym.observe(eq);
                Sym.checkEq(eq, ${type.eq("a", "b")}, "EqImpl is equality");
<#if type.ref>
                final ${type.t} t = ${type.twin("a")};
                Sym.check(${type.name}Type.EqImpl.areEqual(a, t), "equal objects are equal");
<#if type.name != "Generic">
                Sym.check(${type.name}Type.predicateFor(PredicateMethod.EQ).test(a, t), "equal objects are EQ");
</#if>
<#elseif type.name != "Generic">
<#if type.name == "Double">
                // the tolerant equality: by the distance of the two, whichever comes first
                final double x = Sym.choose(2) == 0 ? a : b;
                final double y = Sym.choose(2) == 0 ? a : b;
                Sym.checkEq(DoubleType.EqEpsilon.areEqual(x, y), Math.abs(x - y) < 1e-10, "EqEpsilon is a distance below 1e-10");
</#if>
                Sym.checkEq(eq, ${type.name}Type.predicateFor(PredicateMethod.EQ).test(a, b), "EqImpl coincides with EQ");
</#if>
                break;
            }
            default: {
                final ${type.t} a = value();
                final int code = ${type.name}Type.HashImpl.code(a);
                Sym.observe(code);
                final ${type.t} t = ${type.twin("a")};
                Sym.checkEq(${type.name}Type.HashImpl.code(t), code, "identical values have the same code");
                break;
            }
        }
    }

    private static void predicates() {
        final PredicateMethod[] methods = PredicateMethod.values();
        final PredicateMethod m = methods[Sym.choose(methods.length)];
        final ${p} a = operand();
        final ${p} b = operand();
        final boolean expected;
        switch (m) {
            case EQ:
                expected = <#if type.ref>h.Vals.same(a, b)<#else>a == b</#if>;
                break;
            case NEQ:
                expected = <#if type.ref>!h.Vals.same(a, b)<#else>a != b</#if>;
                break;
<#if ordered>
            case LT:
                expected = <#if type.name == "String">StringType.Asc.compare(a, b) < 0<#else>a < b</#if>;
                break;
            case LTE:
                expected = <#if type.name == "String">StringType.Asc.compare(a, b) <= 0<#else>a <= b</#if>;
                break;
            case GT:
                expected = <#if type.name == "String">StringType.Asc.compare(a, b) > 0<#else>a > b</#if>;
                break;
            case GTE:
                expected = <#if type.name == "String">StringType.Asc.compare(a, b) >= 0<#else>a >= b</#if>;
                break;
</#if>
            default:
                boolean refused = false;
                try {
                    ${type.name}Type.predicateFor(m);
                } catch (RuntimeException e) {
                    refused = true;
                    Sym.cover("refused");
                }
                Sym.check(refused, "a predicate the type lacks is refused");
                return;
        }
        final ${type.name}Type.Pred named = ${type.name}Type.predicateFor(m);
        final boolean got = named.test(a, b);
        Sym.observe(got);
        Sym.checkEq(got, expected, "a predicate is the comparison it names");
        final boolean direct;
        switch (m) {
            case EQ:
                direct = ${type.name}Type.IS_EQ.test(a, b);
                break;
            case NEQ:
                direct = ${type.name}Type.IS_NEQ.test(a, b);
                break;
<#if ordered>
            case LT:
                direct = ${type.name}Type.IS_LT.test(a, b);
                break;
            case LTE:
                direct = ${type.name}Type.IS_LTE.test(a, b);
                break;
            case GT:
                direct = ${type.name}Type.IS_GT.test(a, b);
                break;
</#if>
            default:
                direct = <#if ordered>${type.name}Type.IS_GTE.test(a, b)<#else>expected</#if>;
                break;
        }
        Sym.checkEq(direct, expected, "a predicate constant is the comparison it names");
    }
}
