package h;

import com.bytefacets.collections.types.Pack;
import sx.Sym;

/** Packing and unpacking over all values. */
public final class PackH {
    private PackH() {}

    public static void run() {
        switch (Sym.choose(6)) {
            case 0: {
                final int hi = Sym.anyInt();
                final int lo = Sym.anyInt();
                final long p = Pack.packToLong(hi, lo);
                Sym.observe(p);
                Sym.checkEq(Pack.unpackHiInt(p), hi, "the high int of a packed long");
                Sym.checkEq(Pack.unpackLoInt(p), lo, "the low int of a packed long");
                Sym.checkEq((int) (p >> 32), hi, "the high int is in the upper bits");
                Sym.checkEq((int) p, lo, "the low int is in the lower bits");
                break;
            }
            case 1: {
                final long v = Sym.anyLong();
                Sym.checkEq(Pack.packToLong(Pack.unpackHiInt(v), Pack.unpackLoInt(v)), v, "packing the halves of a long");
                break;
            }
            case 2: {
                final short hi = Sym.anyShort();
                final short lo = Sym.anyShort();
                final int p = Pack.packToInt(hi, lo);
                Sym.observe(p);
                Sym.checkEq(Pack.unpackHiShort(p), hi, "the high short of a packed int");
                Sym.checkEq(Pack.unpackLoShort(p), lo, "the low short of a packed int");
                Sym.checkEq(p >> 16, hi, "the high short is in the upper bits");
                final int v = Sym.anyInt();
                Sym.checkEq(Pack.packToInt(Pack.unpackHiShort(v), Pack.unpackLoShort(v)), v, "packing the halves of an int");
                break;
            }
            case 3: {
                final byte hi = Sym.anyByte();
                final byte lo = Sym.anyByte();
                final short p = Pack.packToShort(hi, lo);
                Sym.observe(p);
                Sym.checkEq(Pack.unpackHiByte(p), hi, "the high byte of a packed short");
                Sym.checkEq(Pack.unpackLoByte(p), lo, "the low byte of a packed short");
                Sym.checkEq(p >> 8, hi, "the high byte is in the upper bits");
                final short v = Sym.anyShort();
                Sym.checkEq(Pack.packToShort(Pack.unpackHiByte(v), Pack.unpackLoByte(v)), v, "packing the halves of a short");
                break;
            }
            case 4: {
                final byte a = Sym.anyByte();
                final byte b = Sym.anyByte();
                final byte c = Sym.anyByte();
                final byte d = Sym.anyByte();
                final int p = Pack.packToInt(a, b, c, d);
                Sym.observe(p);
                Sym.checkEq((byte) (p >> 24), a, "the first byte of four");
                Sym.checkEq((byte) (p >> 16), b, "the second byte of four");
                Sym.checkEq((byte) (p >> 8), c, "the third byte of four");
                Sym.checkEq((byte) p, d, "the fourth byte of four");
                break;
            }
            default: {
                final int a = Sym.anyInt();
                final int b = Sym.anyInt();
                final int c = Sym.anyInt();
                final int d = Sym.anyInt();
                Sym.check(Sym.or(Sym.and(a == c, b == d), Pack.packToLong(a, b) != Pack.packToLong(c, d)), "different pairs pack differently");
                break;
            }
        }
    }
}
