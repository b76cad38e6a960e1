package h;

<#assign flags = ["Byte", "Short", "Int", "Long"]?seq_contains(type.name)>
import com.bytefacets.collections.types.${type.name}Type;
import sx.Sym;

/** Conversions to and from a type for any input of each kind. */
public final class ${type.name}ConvertH {
    private ${type.name}ConvertH() {}

    private static ${type.t} got;
    private static boolean refused;

    /** What convert gives; a refusal has to be an IllegalArgumentException. */
    private static void convert(final Object in) {
        refused = false;
        try {
            got = ${type.name}Type.convert(in);
        } catch (IllegalArgumentException e) {
            refused = true;
        }
    }

<#if type.name == "Bool">
    /** A number counts as true by its int value, which says nothing if only that is zero. */
    private static void number(final Object in, final boolean zero, final int asInt) {
        convert(in);
        Sym.check(!refused, "a number is accepted");
        Sym.observe(got);
        Sym.check(!zero || !got, "zero is false");
        Sym.check(asInt == 0 || got, "a number that is not zero is true");
    }
<#elseif !type.ref>
    private static void number(final Object in, final ${type.t} expected) {
        convert(in);
        Sym.check(!refused, "a number is accepted");
        Sym.checkEq(got, expected, "a number is converted like Java converts it");
<#if type.name != "Char">
        Sym.checkEq(${type.name}Type.unbox(in), expected, "a number is unboxed like Java converts it");
</#if>
    }
</#if>

<#if type.name == "Char" || type.name == "Bool">
    /** Any text of up to 5 characters. */
    private static void text() {
        final String s = Sym.anyString(Sym.choose(6));
        convert(s);
        Sym.check(!refused, "text is accepted");
<#if type.name == "Char">
        Sym.checkEq(got, s.length() == 0 ? '\0' : s.charAt(0), "text gives its first character");
<#else>
        Sym.checkEq(got, s.equalsIgnoreCase("true"), "text is true if it reads true in any case");
</#if>
        Sym.checkEq(${type.name}Type.parseString(s), got, "parseString gives what convert gives");
    }
<#elseif flags>
    /** Any text of up to 3 characters, and numbers on both sides of the limits of the type. */
    private static void text() {
        final int n = Sym.choose(6);
        String s = Sym.anyString(n < 4 ? n : 2);
        if (n >= 4) {
            final String stem = (n == 4 ? "" : "-") + ${type.box}.MAX_VALUE / 100;
            s = new String(new char[] {
<#list 0..<(type.name == "Byte")?then(1, (type.name == "Short")?then(3, (type.name == "Int")?then(8, 17))) as i>stem.charAt(n - 4 + ${i}), </#list>
                s.charAt(0), s.charAt(1)});
            if (n == 5) {
                s = "-".concat(s);
            }
        }
        boolean number = true;
        ${type.t} value = 0;
        try {
            value = ${type.box}.parse${type.name}(s);
        } catch (NumberFormatException e) {
            number = false;
        }
        convert(s);
        Sym.checkEq(refused, !number, "text that is no number of the type is refused");
        if (number) {
            Sym.cover("number read");
            Sym.checkEq(got, value, "text is converted to the number it spells");
            Sym.checkEq(${type.name}Type.parseString(s), value, "parseString gives the number the text spells");
        }
    }
</#if>

    public static void run() {
        switch (Sym.choose(13)) {
            case 0: {
                convert(null);
                Sym.check(!refused, "null is accepted");
                ${type.check("got", type.default, "null converts to the default")};
                ${type.check(type.name + "Type.unbox(null)", type.default, "null unboxes to the default")};
                break;
            }
<#list [["Byte","byte"],["Short","short"],["Int","int"],["Long","long"],["Float","float"],["Double","double"]] as n>
            case ${n?index + 1}: {
                final ${n[1]} v = Sym.any${n[0]}();
<#if type.name == "Bool">
                number(v, v == 0, (int) v);
<#elseif type.name == "Char" && (n[0] == "Float" || n[0] == "Double" || n[0] == "Long")>
                number(v, (char) (int) v);
<#elseif !type.ref>
                number(v, (${type.t}) v);
<#elseif type.name == "Generic">
                final Object in = v;
                convert(in);
                Sym.checkSame(got, in, "an object is itself");
                Sym.checkSame(GenericType.unbox(in), in, "an object is itself");
<#else>
                Sym.prune();
</#if>
                break;
            }
</#list>
            case 7: {
                final boolean v = Sym.anyBool();
                convert(v);
<#if type.name == "Bool">
                Sym.checkEq(refused, false, "a boolean is accepted");
                Sym.checkEq(got, v, "a boolean stays");
<#elseif type.name == "Char">
                Sym.checkEq(refused, false, "a boolean is accepted");
                Sym.checkEq(got, v ? 't' : 'f', "a boolean gives t or f");
<#elseif !type.ref>
                Sym.checkEq(refused, false, "a boolean is accepted");
                Sym.checkEq(got, (${type.t}) (v ? 1 : 0), "a boolean gives 1 or 0");
<#elseif type.name == "String">
                Sym.check(got.equals(v ? "true" : "false"), "a boolean gives its name");
</#if>
                break;
            }
            case 8: {
<#if type.name == "String">
                Sym.prune();
</#if>
                final char v = Sym.anyChar();
                convert(v);
<#if type.name == "Char">
                Sym.checkEq(refused, false, "a character is accepted");
                Sym.checkEq(got, v, "a character stays");
<#elseif type.name == "Bool" || type.ref>
<#else>
                Sym.check(refused || got == (${type.t}) v, "a character is refused or converted like Java converts it");
</#if>
                break;
            }
            case 9: {
<#if type.name == "String" || type.name == "Generic">
                final ${type.t} v = ${type.any};
                convert(v);
                Sym.checkSame(got, v, "an object is itself");
<#else>
                convert(new Object());
                Sym.check(refused, "another object is refused");
                convert(new int[1]);
                Sym.check(refused, "an array is refused");
</#if>
                break;
            }
            case 10: {
                final ${type.t} v = ${type.any};
                final Object boxed = ${type.name}Type.box(v);
<#if !type.ref>
                Sym.check(boxed instanceof ${type.box}, "box gives the box of the type");
                Sym.checkEq((${type.box}) boxed, v, "box keeps the value");
</#if>
                ${type.check(type.name + "Type.unbox(boxed)", "v", "box then unbox is the identity")};
                convert(boxed);
                Sym.check(!refused, "convert accepts what box gives");
                ${type.check("got", "v", "box then convert is the identity")};
                break;
            }
            case 11: {
<#if type.name == "Char" || type.name == "Bool" || flags>
                text();
<#elseif type.name == "String">
                final String s = Sym.anyString(Sym.choose(4));
                boolean number = true;
                int value = 0;
                try {
                    value = Integer.parseInt(s);
                } catch (NumberFormatException e) {
                    number = false;
                }
                refused = false;
                int cast = 0;
                try {
                    cast = StringType.castToInt(s);
                } catch (IllegalArgumentException e) {
                    refused = true;
                }
                Sym.checkEq(refused, !number, "text that is no int is refused");
                Sym.checkEq(cast, value, "castToInt gives the number the text spells");
                Sym.checkSame(StringType.parseString(s), s, "text is itself");
<#else>
                Sym.prune();
</#if>
                break;
            }
            default: {
<#if type.name == "Bool">
                final int n = Sym.anyInt();
                Sym.checkEq(BoolType.castToBool(n), n != 0, "castToBool");
                final boolean v = Sym.anyBool();
                Sym.checkEq(BoolType.castToInt(v), v ? 1 : 0, "castToInt");
<#elseif type.name == "Int">
                final int v = Sym.anyInt();
                Sym.checkEq(IntType.castToInt(v), v, "castToInt");
<#elseif !type.ref>
                final int n = Sym.anyInt();
                Sym.checkEq(${type.name}Type.castTo${type.name}(n), (${type.t}) n, "castTo${type.name}");
                final ${type.t} v = ${type.any};
                Sym.checkEq(${type.name}Type.castToInt(v), (int) v, "castToInt");
<#else>
                Sym.prune();
</#if>
<#if flags>
                final ${type.t} f = ${type.any};
                final ${type.t} b = ${type.any};
                final ${type.t} on = ${type.name}Type.enableBits(f, b);
                final ${type.t} off = ${type.name}Type.disableBits(f, b);
                Sym.checkEq(on & b, b, "enableBits sets the bits");
                Sym.checkEq(on & ~b, f & ~b, "enableBits keeps the other bits");
                Sym.checkEq(off & b, (${type.t}) 0, "disableBits clears the bits");
                Sym.checkEq(off & ~b, f & ~b, "disableBits keeps the other bits");
</#if>
                break;
            }
        }
    }
}
