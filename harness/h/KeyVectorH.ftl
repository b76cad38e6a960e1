package h;

import com.bytefacets.collections.functional.${type.name}Consumer;
import com.bytefacets.collections.vector.${type.name}Vector;
import sx.Sym;

/** A vector against a sequence. */
public final class ${type.name}VectorH {
    private ${type.name}VectorH() {}

    static final class Ctx implements ${type.name}Consumer${type.g} {
        ${type.name}Vector${type.g} vector;
        ${type.t}[] model;
        int n;
        int seen;

        @Override
        public void accept(final ${type.t} v) {
            Sym.check(seen < n, "forEach yields no more than there is");
            ${type.check("v", "model[seen]", "forEach goes from first to last")};
            seen++;
        }
    }

    public static void run() {
        final Ctx c = new Ctx();
        c.vector = new ${type.name}Vector${type.diamond}(Sym.param("cap", 1));
        c.model = new ${type.t}[Sym.param("most", 6)];
        while (Sym.cut()) {
            step(c);
        }
    }

    private static void step(final Ctx c) {
        switch (Sym.choose(4)) {
            case 0: {
                if (c.n == c.model.length) {
                    Sym.prune();
                }
                final ${type.t} v = ${type.any};
                c.model[c.n++] = v;
                c.vector.append(v);
                break;
            }
            case 1: {
                final int size = Sym.range(-2, 2 * c.model.length + 1);
                c.vector.ensureSize(size);
                break;
            }
            case 2: {
                Sym.cover("cleared");
                c.vector.clear();
                for (int i = 0; i < c.n; i++) {
                    c.model[i] = ${type.zero};
                }
                c.n = 0;
                break;
            }
            default: {
                c.seen = 0;
                c.vector.forEach(c);
                Sym.checkEq(c.seen, c.n, "forEach yields everything");
                if (c.n > 0) {
                    final int i = Sym.range(0, c.n - 1);
                    ${type.check("(" + type.t + ") c.vector.valueAt(i)", "c.model[i]", "valueAt any index")};
                }
                Sym.prune();
            }
        }
        Sym.checkEq(c.vector.size(), c.n, "size");
        Sym.checkEq(c.vector.isEmpty(), c.n == 0, "isEmpty");
        for (int i = 0; i < c.n; i++) {
            ${type.check("(" + type.t + ") c.vector.valueAt(i)", "c.model[i]", "valueAt")};
        }
    }
}
