package h;

import com.bytefacets.collections.types.${type.name}Type;
import sx.Sym;

<#assign size = {"Bool":1,"Byte":1,"Short":2,"Char":2,"Int":4,"Float":4,"Long":8,"Double":8}[type.name]>
/** Writing any value anywhere in an array of any content, and reading it back. */
public final class ${type.name}CodecH {
    private ${type.name}CodecH() {}

    private static final int SIZE = ${size};
    private static final int[] FAR = {100, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, 69990};

    private static long bits(final ${type.t} v) {
<#if type.name == "Bool">
        return v ? 1 : 0;
<#elseif type.name == "Float">
        return Float.floatToRawIntBits(v);
<#elseif type.name == "Double">
        return Double.doubleToRawLongBits(v);
<#else>
        return v;
</#if>
    }

    public static void run() {
        final int where = Sym.choose(3);
        final byte[] array = new byte[where == 0 ? SIZE + 3 : where == 1 ? 70_000 : 140_000];
        final int pos = where == 0 ? Sym.choose(4) : where == 1 ? FAR[Sym.choose(FAR.length)] : Sym.range(3, array.length - SIZE - 3);
        final int before = where == 2 ? 3 : Math.min(3, pos); // bytes that are looked at
        final int after = where == 2 ? 3 : Math.min(3, array.length - SIZE - pos);
        final byte[] was = new byte[before + SIZE + after];
        for (int i = 0; i < was.length; i++) {
            was[i] = Sym.anyByte();
            array[pos - before + i] = was[i];
        }
        final boolean little = Sym.choose(2) == 0;
        if (Sym.choose(2) == 0) {
            Sym.cover("write");
            final ${type.t} value = ${type.any};
            final int end = little ? ${type.name}Type.writeLE(array, pos, value) : ${type.name}Type.writeBE(array, pos, value);
            Sym.checkEq(end, pos + SIZE, "the position after the value");
            for (int i = 0; i < SIZE; i++) {
                final int at = pos + (little ? i : SIZE - 1 - i);
                Sym.checkEq(array[at], (byte) (bits(value) >> 8 * i), "the bytes of the value in order");
            }
            for (int i = 0; i < was.length; i++) {
                if (i < before || i >= before + SIZE) {
                    Sym.checkEq(array[pos - before + i], was[i], "the other bytes stay");
                }
            }
            final ${type.t} back = little ? ${type.name}Type.readLE(array, pos) : ${type.name}Type.readBE(array, pos);
            Sym.checkEq(back, value, "reading back what was written");
        } else {
            Sym.cover("read");
            final ${type.t} value = little ? ${type.name}Type.readLE(array, pos) : ${type.name}Type.readBE(array, pos);
            for (int i = 0; i < was.length; i++) {
                Sym.checkEq(array[pos - before + i], was[i], "reading changes nothing");
            }
<#if type.name == "Bool">
            Sym.check(!value || array[pos] == 1, "a true is coded by 1");
            Sym.check(array[pos] != 0 || !value, "0 codes false");
<#else>
            for (int i = 0; i < SIZE; i++) {
                final int at = pos + (little ? i : SIZE - 1 - i);
                Sym.checkEq((byte) (bits(value) >> 8 * i), array[at], "the value with these bytes");
            }
</#if>
        }
    }
}
