package h;

import com.bytefacets.collections.vector.${type.name}Vector;
import sx.Sym;

/** A vector with many values, all of them any at all. */
public final class ${type.name}VectorCrowdH {
    private ${type.name}VectorCrowdH() {}

    private static ${type.name}Vector${type.g} vector;
    private static ${type.t}[] model;
    private static int size;

    public static void run() {
        final int n = Sym.param("n", 70);
        vector = new ${type.name}Vector${type.diamond}(Sym.param("cap", 1));
        model = new ${type.t}[4 * n];
        size = 0;
        final int way = Sym.choose(3);
        if (way == 1) {
            vector.ensureSize(Sym.range(0, 2 * n));
        }
        fill(n);
        look();
        switch (Sym.choose(3)) {
            case 0:
                break;
            case 1:
                vector.clear();
                size = 0;
                look();
                break;
            default:
                vector.ensureSize(n / 2);
                look();
                vector.ensureSize(3 * n);
                look();
                break;
        }
        fill(n);
        look();
        Sym.cover("done");
    }

    private static void fill(final int n) {
        for (int i = 0; i < n; i++) {
            final ${type.t} v = ${type.any};
            model[size++] = v;
            vector.append(v);
        }
    }

    private static void look() {
        Sym.checkEq(vector.size(), size, "size");
        for (int i = 0; i < size; i++) {
            ${type.check("(" + type.t + ") vector.valueAt(i)", "model[i]", "valueAt")};
        }
        final int[] seen = new int[1];
        vector.forEach(v -> {
            Sym.check(seen[0] < size, "forEach yields no more than there is");
            ${type.check("v", "model[seen[0]]", "forEach goes from first to last")};
            seen[0]++;
        });
        Sym.checkEq(seen[0], size, "forEach yields everything");
    }
}
