package sx;

import com.microsoft.z3.BitVecExpr;
import com.microsoft.z3.BitVecNum;
import com.microsoft.z3.BoolExpr;
import com.microsoft.z3.Context;
import com.microsoft.z3.Expr;
import com.microsoft.z3.FPExpr;
import com.microsoft.z3.FPRMExpr;
import com.microsoft.z3.FPSort;
import com.microsoft.z3.Model;
import com.microsoft.z3.Params;
import com.microsoft.z3.Solver;
import com.microsoft.z3.Status;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.HashSet;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.Map;

/** Asks z3 about conjunctions of terms. Conjunctions are sliced by shared variables by the caller; answers are cached. */
final class Smt {
    static final class Answer {
        final int status; // 1 sat, 0 unsat, -1 unknown
        final Map<T, Long> model;

        Answer(final int status, final Map<T, Long> model) {
            this.status = status;
            this.model = model;
        }
    }

    static final Answer UNSAT = new Answer(0, null);
    static final Answer UNKNOWN = new Answer(-1, null);

    private static final class Key {
        final int[] ids;
        final int hash;

        Key(final int[] ids) {
            this.ids = ids;
            this.hash = Arrays.hashCode(ids);
        }

        @Override
        public int hashCode() {
            return hash;
        }

        @Override
        public boolean equals(final Object o) {
            return o instanceof Key && Arrays.equals(ids, ((Key) o).ids);
        }
    }

    private Context z;
    private static final boolean SLOW = Boolean.getBoolean("sx.slow");
    private Solver solver;
    private FPSort f32;
    private FPSort f64;
    private FPRMExpr rne;
    private FPRMExpr rtz;
    private final IdentityHashMap<T, Expr<?>> memo = new IdentityHashMap<>();
    private final IdentityHashMap<T, BoolExpr> sides = new IdentityHashMap<>();
    private final HashMap<Key, Answer> cache = new HashMap<>();
    private static final int FIRST_MS = 4000;
    private final int timeoutMs;
    private final Map<T, Long>[] pool = newPool();
    private int poolAt;
    long reused;
    long queries;
    long cacheHits;
    long unsat;
    long sat;
    long unknown;
    long nanos;
    private long sinceReset;

    @SuppressWarnings("unchecked")
    private static Map<T, Long>[] newPool() {
        return new Map[48];
    }

    final Clock.View clock;
    private boolean shortened;

    Smt(final int timeoutMs, final Clock.View clock) {
        this.clock = clock;
        this.timeoutMs = timeoutMs;
        open();
    }

    private void open() {
        z = new Context();
        solver = z.mkSolver();
        params(FIRST_MS);
        f32 = z.mkFPSort32();
        f64 = z.mkFPSort64();
        rne = z.mkFPRoundNearestTiesToEven();
        rtz = z.mkFPRoundTowardZero();
    }

    private void params(final int ms) {
        final Params p = z.mkParams();
        p.add("timeout", ms);
        p.add("random_seed", 1);
        solver.setParameters(p);
    }

    void close() {
        z.close();
    }

    /** Is the conjunction satisfiable? The conjuncts need not be in any order. */
    Answer check(final List<T> conj) {
        final int[] ids = new int[conj.size()];
        for (int i = 0; i < ids.length; i++) {
            final T t = conj.get(i);
            if (t.isFalse()) {
                return UNSAT;
            }
            ids[i] = t.id;
        }
        Arrays.sort(ids);
        final Key key = new Key(ids);
        Answer a = cache.get(key);
        if (a != null) {
            cacheHits++;
            return a;
        }
        a = fromPool(conj);
        if (a != null) {
            reused++;
            cache.put(key, a);
            return a;
        }
        a = solve(conj);
        if (a.status == 1 && !a.model.isEmpty()) {
            pool[poolAt++ % pool.length] = a.model;
        }
        if (a.status >= 0) {
            cache.put(key, a);
        }
        return a;
    }

    /** Does one of the last models the solver gave satisfy this too? */
    private Answer fromPool(final List<T> conj) {
        final HashSet<T> vars = new HashSet<>();
        for (T t : conj) {
            for (T v : t.vars()) {
                vars.add(v);
            }
        }
        next:
        for (int i = 1; i <= pool.length && i <= poolAt; i++) {
            final Map<T, Long> m = pool[(poolAt - i) % pool.length];
            for (T v : vars) {
                if (!m.containsKey(v)) {
                    continue next;
                }
            }
            for (T t : conj) {
                if (TF.eval(t, m) != 1) {
                    continue next;
                }
            }
            final Map<T, Long> r = new HashMap<>();
            for (T v : vars) {
                r.put(v, m.get(v));
            }
            return new Answer(1, r);
        }
        return null;
    }

    private Answer solve(final List<T> conj) {
        final long t0 = System.nanoTime();
        queries++;
        if (++sinceReset > 20000) {
            // keeps the context from growing for ever
            sinceReset = 0;
            memo.clear();
            sides.clear();
            z.close();
            open();
        }
        final long left = clock.left();
        if (left < 20) {
            unknown++;
            return UNKNOWN;
        }
        if (left < 5L * timeoutMs || shortened) {
            shortened = true;
            params((int) Math.min(FIRST_MS, left));
        }
        Answer r;
        solver.push();
        try {
            final java.util.Set<T> done = new HashSet<>();
            for (T t : conj) {
                solver.add((BoolExpr) tr(t));
                define(t, solver, done);
            }
            Status s = solver.check();
            if (SLOW && System.nanoTime() - t0 > 300_000_000L) {
                System.err.println("; slow query, " + (System.nanoTime() - t0) / 1000000 + " ms, " + s + "\n" + solver + "(check-sat)\n");
            }
            Solver by = solver;
            Map<T, Long> found = null;
            if (s == Status.UNKNOWN && clock.left() > 20) {
                final Map<T, Long> m = new HashMap<>();
                final int other = cvc5(solver.toString(), conj, m);
                if (other == 0) {
                    s = Status.UNSATISFIABLE;
                } else if (other == 1) {
                    s = Status.SATISFIABLE;
                    found = m;
                }
            }
            if (s == Status.UNKNOWN && clock.left() > 20) {
                // the incremental core gave up: try the bit-blasting pipeline
                by = z.mkSolver(z.mkTactic("qffpbv"));
                final Params p = z.mkParams();
                p.add("timeout", (int) Math.min(timeoutMs * 3L, clock.left()));
                by.setParameters(p);
                done.clear();
                for (T t : conj) {
                    by.add((BoolExpr) tr(t));
                    define(t, by, done);
                }
                s = by.check();
            }
            if (s == Status.UNSATISFIABLE) {
                unsat++;
                r = UNSAT;
            } else if (s == Status.SATISFIABLE) {
                sat++;
                r = new Answer(1, found != null ? found : model(by.getModel(), conj));
            } else {
                unknown++;
                r = UNKNOWN;
            }
        } finally {
            solver.pop();
        }
        nanos += System.nanoTime() - t0;
        return r;
    }

    private static final String CVC5 = new java.io.File("/usr/bin/cvc5").canExecute() ? "/usr/bin/cvc5"
            : new java.io.File("/usr/local/bin/cvc5").canExecute() ? "/usr/local/bin/cvc5" : null;

    /** Asks the other solver. 1 sat (with a model), 0 unsat, -1 unknown. */
    private int cvc5(final String problem, final List<T> conj, final Map<T, Long> model) {
        if (CVC5 == null) {
            return -1;
        }
        final Map<String, T> vars = new HashMap<>();
        final StringBuilder ask = new StringBuilder("(set-logic ALL)\n").append(problem).append("\n(check-sat)\n(get-value (");
        for (T t : conj) {
            for (T v : t.vars()) {
                if (vars.put("v" + v.id, v) == null) {
                    ask.append(" v").append(v.id);
                }
            }
        }
        ask.append("))\n");
        final long limit = Math.min(timeoutMs, clock.left());
        java.nio.file.Path file = null;
        Process p = null;
        try {
            file = java.nio.file.Files.createTempFile("q", ".smt2");
            java.nio.file.Files.writeString(file, ask);
            p = new ProcessBuilder(CVC5, "--produce-models", "--tlimit=" + limit, file.toString())
                    .redirectError(ProcessBuilder.Redirect.DISCARD).start();
            final String out = new String(p.getInputStream().readAllBytes(), java.nio.charset.StandardCharsets.UTF_8).trim();
            if (out.startsWith("unsat")) {
                return 0;
            }
            if (!out.startsWith("sat")) {
                return -1;
            }
            final java.util.regex.Matcher m = java.util.regex.Pattern.compile("\\((v\\d+) (#b[01]+|#x[0-9a-f]+|true|false)\\)").matcher(out);
            while (m.find()) {
                final T v = vars.get(m.group(1));
                final String x = m.group(2);
                final long n = x.equals("true") ? 1 : x.equals("false") ? 0
                        : Long.parseUnsignedLong(x.substring(2), x.charAt(1) == 'b' ? 2 : 16);
                model.put(v, v.w == 32 ? (int) n : n);
            }
            if (model.size() != vars.size()) {
                return -1;
            }
            for (T t : conj) {
                if (TF.eval(t, model) != 1) {
                    throw new Unsupported("the encoding and the evaluator disagree on " + t + " under " + model);
                }
            }
            return 1;
        } catch (java.io.IOException e) {
            return -1;
        } finally {
            if (p != null) {
                p.destroyForcibly();
            }
            if (file != null) {
                file.toFile().delete();
            }
        }
    }

    private Map<T, Long> model(final Model m, final List<T> conj) {
        final Map<T, Long> r = new HashMap<>();
        for (T t : conj) {
            for (T v : t.vars()) {
                if (!r.containsKey(v)) {
                    final Expr<?> e = m.eval(tr(v), true);
                    if (v.w == 1) {
                        r.put(v, e.isTrue() ? 1L : 0L);
                    } else {
                        final long x = ((BitVecNum) e).getBigInteger().longValue();
                        r.put(v, v.w == 32 ? (int) x : x);
                    }
                }
            }
        }
        for (T t : conj) {
            if (TF.eval(t, r) != 1) {
                throw new Unsupported("the encoding and the evaluator disagree on " + t + " under " + r);
            }
        }
        return r;
    }

    private FPExpr fp(final T t) {
        return z.mkFPToFP((BitVecExpr) tr(t), t.w == 32 ? f32 : f64);
    }

    /** IEEE comparison on the bit patterns, which is much easier than on floating point terms. */
    private BoolExpr fcmp(final T t, final int kind) {
        final int w = t.a.w;
        final BitVecExpr a = bv(t.a);
        final BitVecExpr b = bv(t.b);
        final BitVecExpr mask = z.mkBV(w == 32 ? Integer.toString(Integer.MAX_VALUE) : Long.toString(Long.MAX_VALUE), w);
        final BitVecExpr inf = z.mkBV(w == 32 ? Integer.toString(0x7f800000) : Long.toString(0x7ff0000000000000L), w);
        final BitVecExpr ma = z.mkBVAND(a, mask);
        final BitVecExpr mb = z.mkBVAND(b, mask);
        final BitVecExpr zero = z.mkBV(0, w);
        final BitVecExpr ka = (BitVecExpr) z.mkITE(z.mkBVSLT(a, zero), z.mkBVNeg(ma), a);
        final BitVecExpr kb = (BitVecExpr) z.mkITE(z.mkBVSLT(b, zero), z.mkBVNeg(mb), b);
        final BoolExpr numbers = z.mkAnd(z.mkBVULE(ma, inf), z.mkBVULE(mb, inf));
        final BoolExpr c = kind == 0 ? z.mkEq(ka, kb) : kind == 1 ? z.mkBVSLT(ka, kb) : z.mkBVSLE(ka, kb);
        return z.mkAnd(numbers, c);
    }

    private BitVecExpr bits(final FPExpr e) {
        final boolean d = ((FPSort) e.getSort()).getSBits() > 24;
        return (BitVecExpr) z.mkITE(z.mkFPIsNaN(e), d ? z.mkBV(0x7ff8000000000000L, 64) : z.mkBV(0x7fc00000, 32), z.mkFPToIEEEBV(e));
    }

    private Expr<?> tr(final T t) {
        Expr<?> e = memo.get(t);
        if (e == null) {
            e = translate(t);
            memo.put(t, e);
        }
        return e;
    }

    private BitVecExpr bv(final T t) {
        return (BitVecExpr) tr(t);
    }

    private BoolExpr bo(final T t) {
        return (BoolExpr) tr(t);
    }

    private BitVecExpr shiftBy(final T t) {
        // Java uses the low bits of an int shift distance
        final BitVecExpr s = bv(t);
        return s;
    }

    private BitVecExpr dist(final T t) {
        BitVecExpr s = shiftBy(t.b);
        if (t.b.w == 32 && t.w == 64) {
            s = z.mkZeroExt(32, s);
        }
        return z.mkBVAND(s, z.mkBV(t.w - 1, t.w));
    }

    private Expr<?> f2i(final T a, final int w) {
        final FPExpr x = fp(a);
        final long min = w == 32 ? Integer.MIN_VALUE : Long.MIN_VALUE;
        final long max = w == 32 ? Integer.MAX_VALUE : Long.MAX_VALUE;
        final FPSort s = a.w == 32 ? f32 : f64;
        final FPExpr lo = (FPExpr) z.mkFPToFP(z.mkBV(a.w == 32
                ? Integer.toUnsignedString(Float.floatToRawIntBits((float) min))
                : Long.toUnsignedString(Double.doubleToRawLongBits((double) min)), a.w), s);
        // the first value above the range: 2^31 or 2^63
        final FPExpr hi = (FPExpr) z.mkFPNeg(lo);
        return z.mkITE(z.mkFPIsNaN(x), z.mkBV(0, w),
                z.mkITE(z.mkFPGEq(x, hi), z.mkBV(max, w),
                        z.mkITE(z.mkFPLEq(x, lo), z.mkBV(Long.toString(min), w), z.mkFPToBV(rtz, x, w, true))));
    }

    /** Division by a constant as a fresh quotient with what defines it, which is much easier than a divider circuit. */
    private BitVecExpr quotient(final T t) {
        final int w = t.w;
        final BitVecExpr a = bv(t.a);
        final BitVecExpr d = bv(t.b);
        final BitVecExpr q = z.mkBVConst("q" + t.a.id + "_" + t.b.v, w);
        final BitVecExpr r = z.mkBVSub(a, z.mkBVMul(q, d));
        final BitVecExpr zero = z.mkBV(0, w);
        final long max = w == 32 ? Integer.MAX_VALUE : Long.MAX_VALUE;
        final BitVecExpr top = z.mkBV(max / t.b.v, w);
        final BoolExpr range = t.a.lo >= 0 ? z.mkBVULE(q, z.mkBV(t.a.hi / t.b.v, w))
                : z.mkAnd(z.mkBVSLE(z.mkBVNeg(top), q), z.mkBVSLE(q, top));
        // the least number divided by the divisor may be one further down
        final BoolExpr below = z.mkEq(q, z.mkBV(Long.toString((w == 32 ? Integer.MIN_VALUE : Long.MIN_VALUE) / t.b.v), w));
        final BoolExpr pos = z.mkAnd(z.mkBVSLE(zero, r), z.mkBVSLT(r, d));
        final BoolExpr rest = t.a.lo >= 0 ? pos
                : (BoolExpr) z.mkITE(z.mkBVSLE(zero, a), z.mkAnd(pos, z.mkBVSLE(zero, q)),
                        z.mkAnd(z.mkBVSLE(r, zero), z.mkBVSLT(z.mkBVNeg(d), r), z.mkBVSLE(q, zero)));
        sides.put(t, z.mkAnd(t.a.lo >= 0 ? range : z.mkOr(range, below), rest));
        return q;
    }

    /** Adds what defines the quotients that occur in a term. */
    private void define(final T t, final Solver to, final java.util.Set<T> done) {
        if (t == null || !t.div || !done.add(t)) {
            return;
        }
        final BoolExpr side = sides.get(t);
        if (side != null) {
            to.add(side);
        }
        define(t.a, to, done);
        define(t.b, to, done);
        define(t.c, to, done);
    }

    private static boolean powerOfTwo(final T t) {
        return t.isConst() && t.v > 1 && (t.v & (t.v - 1)) == 0;
    }

    /** The dividend, moved up by one less than the divisor where it is negative: shifting that rounds towards zero. */
    private BitVecExpr biased(final T t) {
        final int k = Long.numberOfTrailingZeros(t.b.v);
        final BitVecExpr sign = z.mkBVASHR(bv(t.a), z.mkBV(t.w - 1, t.w));
        return z.mkBVAdd(bv(t.a), z.mkBVLSHR(sign, z.mkBV(t.w - k, t.w)));
    }

    private Expr<?> translate(final T t) {
        switch (t.op) {
            case T.CONST:
                return t.w == 1 ? z.mkBool(t.v == 1) : z.mkBV(Long.toString(t.v), t.w);
            case T.VAR:
                return t.w == 1 ? z.mkBoolConst("v" + t.id) : z.mkBVConst("v" + t.id, t.w);
            case T.ADD:
                return z.mkBVAdd(bv(t.a), bv(t.b));
            case T.SUB:
                return z.mkBVSub(bv(t.a), bv(t.b));
            case T.MUL:
                return z.mkBVMul(bv(t.a), bv(t.b));
            case T.SDIV:
                if (powerOfTwo(t.b)) {
                    return z.mkBVASHR(biased(t), z.mkBV(Long.numberOfTrailingZeros(t.b.v), t.w));
                }
                return t.b.isConst() && t.b.v > 1 ? quotient(t) : z.mkBVSDiv(bv(t.a), bv(t.b));
            case T.SREM:
                if (powerOfTwo(t.b)) {
                    return z.mkBVSub(bv(t.a), z.mkBVAND(biased(t), z.mkBV(Long.toString(-t.b.v), t.w)));
                }
                return t.b.isConst() && t.b.v > 1 ? z.mkBVSub(bv(t.a), z.mkBVMul(quotient(t), bv(t.b)))
                        : z.mkBVSRem(bv(t.a), bv(t.b));
            case T.AND:
                return z.mkBVAND(bv(t.a), bv(t.b));
            case T.OR:
                return z.mkBVOR(bv(t.a), bv(t.b));
            case T.XOR:
                return z.mkBVXOR(bv(t.a), bv(t.b));
            case T.SHL:
                return z.mkBVSHL(bv(t.a), dist(t));
            case T.LSHR:
                return z.mkBVLSHR(bv(t.a), dist(t));
            case T.ASHR:
                return z.mkBVASHR(bv(t.a), dist(t));
            case T.SX:
                return z.mkSignExt((int) (t.w - t.v), z.mkExtract((int) t.v - 1, 0, bv(t.a)));
            case T.I2L:
                return z.mkSignExt(32, bv(t.a));
            case T.L2I:
                return z.mkExtract(31, 0, bv(t.a));
            case T.ITE:
                return z.mkITE(bo(t.a), tr(t.b), tr(t.c));
            case T.EQ:
                return z.mkEq(tr(t.a), tr(t.b));
            case T.SLT:
                return z.mkBVSLT(bv(t.a), bv(t.b));
            case T.SLE:
                return z.mkBVSLE(bv(t.a), bv(t.b));
            case T.BAND:
                return z.mkAnd(bo(t.a), bo(t.b));
            case T.BOR:
                return z.mkOr(bo(t.a), bo(t.b));
            case T.BNOT:
                return z.mkNot(bo(t.a));
            case T.FADD:
                return bits((FPExpr) z.mkFPAdd(rne, fp(t.a), fp(t.b)));
            case T.FSUB:
                return bits((FPExpr) z.mkFPSub(rne, fp(t.a), fp(t.b)));
            case T.FMUL:
                return bits((FPExpr) z.mkFPMul(rne, fp(t.a), fp(t.b)));
            case T.FDIV:
                return bits((FPExpr) z.mkFPDiv(rne, fp(t.a), fp(t.b)));
            case T.FEQ:
                return fcmp(t, 0);
            case T.FLT:
                return fcmp(t, 1);
            case T.FLE:
                return fcmp(t, 2);
            case T.F2D:
                return bits(z.mkFPToFP(rne, fp(t.a), f64));
            case T.D2F:
                return bits(z.mkFPToFP(rne, fp(t.a), f32));
            case T.I2F:
            case T.L2F:
                return bits(z.mkFPToFP(rne, bv(t.a), f32, true));
            case T.I2D:
            case T.L2D:
                return bits(z.mkFPToFP(rne, bv(t.a), f64, true));
            case T.F2I:
            case T.D2I:
                return f2i(t.a, 32);
            case T.CEIL:
                return bits(z.mkFPRoundToIntegral(z.mkFPRoundTowardPositive(), fp(t.a)));
            case T.FLOOR:
                return bits(z.mkFPRoundToIntegral(z.mkFPRoundTowardNegative(), fp(t.a)));
            case T.F2L:
            case T.D2L:
                return f2i(t.a, 64);
            default:
                throw new IllegalStateException("translate " + t.op);
        }
    }

    /** The conjuncts that share a variable, directly or through others, with the seeds; the seeds come first. */
    static List<T> slice(final T[] pc, final int n, final T seed) {
        final List<T> out = new ArrayList<>();
        out.add(seed);
        final IdentityHashMap<T, T> vars = new IdentityHashMap<>();
        for (T v : seed.vars()) {
            vars.put(v, v);
        }
        final boolean[] used = new boolean[n];
        boolean more = true;
        while (more) {
            more = false;
            for (int i = 0; i < n; i++) {
                if (!used[i]) {
                    for (T v : pc[i].vars()) {
                        if (vars.containsKey(v)) {
                            used[i] = true;
                            break;
                        }
                    }
                    if (used[i]) {
                        out.add(pc[i]);
                        for (T v : pc[i].vars()) {
                            if (vars.put(v, v) == null) {
                                more = true;
                            }
                        }
                    }
                }
            }
        }
        return out;
    }
}
