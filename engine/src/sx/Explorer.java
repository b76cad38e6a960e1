package sx;

import java.nio.file.Path;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.Random;
import java.util.Set;

/** Explores all paths of a harness, breadth first over its cut points, and collects what the checks say. */
final class Explorer implements Interp.Listener {
    private static final Set<String> IGNORED = Set.of("modificationCount", "modCount", "hash", "hashIsZero");
    private final Job job;
    private final Interp in;
    private final Smt smt;
    private final JobResult res;
    private final HashMap<Canon.Key, List<T[]>> visited = new HashMap<>();
    private final Random random;
    private final Clock.View clock;
    private final Findings known;
    private final String prop;
    private final int maxViolations;

    Explorer(final Job job, final List<Path> path, final Clock clock, final long seed, final Findings known, final String prop) {
        this.job = job;
        this.clock = new Clock.View(clock);
        this.known = known;
        this.prop = prop;
        this.smt = new Smt(20_000, this.clock);
        this.in = new Interp(smt, new ClassRepo(path, IGNORED), this);
        this.in.natives.iteArrays = job.ite;
        this.res = new JobResult(job);
        this.random = new Random(seed);
        this.maxViolations = 4;
    }

    JobResult run() {
        final long t0 = System.nanoTime();
        try {
            explore();
        } catch (Interp.Stopped e) {
            res.truncated = "stopped";
        } catch (Unsupported e) {
            res.error = "unsupported: " + e.getMessage() + (in.s == null ? "" : "\n" + in.where(in.s));
        } catch (OutOfMemoryError e) {
            visited.clear();
            in.work.clear();
            res.truncated = "memory";
        } catch (RuntimeException | StackOverflowError e) {
            final StringBuilder sb = new StringBuilder("engine: " + e);
            for (Throwable c = e; c != null; c = c.getCause()) {
                sb.append('\n').append(c);
                for (int i = 0; i < Math.min(12, c.getStackTrace().length); i++) {
                    sb.append("\n    ").append(c.getStackTrace()[i]);
                }
            }
            res.error = sb.toString();
        } finally {
            res.forks = in.forks;
            res.queries = smt.queries;
            res.cacheHits = smt.cacheHits;
            res.unsat = smt.unsat;
            res.sat = smt.sat;
            res.undecided += in.undecided;
            res.solverSeconds = smt.nanos / 1e9;
            res.instructions = in.instructions;
            smt.close();
        }
        res.seconds = (System.nanoTime() - t0) / 1e9;
        return res;
    }

    private void explore() {
        final ClassInfo h = in.repo.get(job.harness.replace('.', '/'));
        final MethodInfo main = h.findMethod("run()V");
        State first = new State(in.base);
        in.s = first;
        in.init(h);
        in.push(main, new Object[0]);
        final ArrayDeque<State> queue = new ArrayDeque<>();
        queue.add(first);
        boolean complete = true;
        long ticks = 0;
        while (!queue.isEmpty()) {
            final State st = queue.poll();
            if (st.cuts > job.maxDepth) {
                complete = false;
                continue;
            }
            st.steps = 0;
            in.work.clear();
            in.work.push(st);
            while (!in.work.isEmpty()) {
                if ((++ticks & 15) == 0 && clock.over()) {
                    res.truncated = "time";
                    return;
                }
                if (res.violations.size() >= maxViolations) {
                    res.truncated = "violations";
                    return;
                }
                if (res.paths > job.maxPaths || res.states > job.maxStates) {
                    res.truncated = res.paths > job.maxPaths ? "paths" : "states";
                    return;
                }
                final State w = in.work.pop();
                final int o = in.run(w);
                if (o == Interp.DONE) {
                    res.paths++;
                    sample(w, res.paths);
                } else if (o == Interp.CUT) {
                    res.transitions++;
                    final Canon c = new Canon(in, w);
                    if (seen(c)) {
                        res.subsumed++;
                        w.cuts--; // the last cut is where the trace ends
                        sample(w, res.transitions);
                    } else {
                        res.states++;
                        res.depth = Math.max(res.depth, w.cuts - 1);
                        w.cuts--;
                        sample(w, res.states);
                        w.cuts++;
                        queue.add(w);
                    }
                }
            }
        }
        res.fixpoint = complete && res.states > 0;
    }

    /** Is everything this state can do done by one that is kept? */
    private boolean seen(final Canon c) {
        final List<T[]> olds = visited.get(c.key);
        if (olds == null) {
            final List<T[]> l = new ArrayList<>();
            l.add(c.constraints);
            visited.put(c.key, l);
            return false;
        }
        for (T[] o : olds) {
            if (subset(o, c.constraints)) {
                return true;
            }
        }
        // If what is known here implies what was known there, every continuation of this state is one of that state.
        // (Names of dead values are shared between the two, which can only make the implication harder to show.)
        int tried = 0;
        for (int i = olds.size() - 1; i >= 0 && tried < 64; i--) {
            final T[] o = olds.get(i);
            tried++;
            T all = in.tf.TRUE;
            for (T t : o) {
                if (!contains(c.constraints, t)) {
                    all = in.tf.and(all, t);
                }
            }
            final List<T> q = new ArrayList<>(List.of(c.constraints));
            q.add(in.tf.not(all));
            if (smt.check(q).status == 0) {
                return true;
            }
        }
        olds.add(c.constraints);
        return false;
    }

    private static boolean contains(final T[] a, final T t) {
        for (T x : a) {
            if (x == t) {
                return true;
            }
        }
        return false;
    }

    private static boolean subset(final T[] small, final T[] big) {
        int j = 0;
        for (T t : small) {
            while (j < big.length && big[j].id < t.id) {
                j++;
            }
            if (j == big.length || big[j] != t) {
                return false;
            }
        }
        return true;
    }

    /** Keeps some of the paths, to be run on the real classes afterwards. */
    private void sample(final State s, final long count) {
        if (s.cells > 1 << 26) {
            return; // more memory than the real run should take
        }
        final int cap = 24;
        if (res.samples.size() < cap) {
            res.samples.add(trace(s, s.model, "sample", ""));
        } else {
            final long k = (long) (random.nextDouble() * count);
            if (k < cap) {
                res.samples.set((int) k, trace(s, s.model, "sample", ""));
            }
        }
    }

    private Trace trace(final State s, final Map<T, Long> model, final String kind, final String msg) {
        final Trace t = new Trace();
        t.kind = kind;
        t.message = msg;
        t.big = s.cells > 1 << 26;
        final int n = s.inputs == null ? 0 : s.inputs.n;
        t.kinds = new char[n];
        t.values = new long[n];
        int i = n;
        for (Rec r = s.inputs; r != null; r = r.prev) {
            i--;
            t.kinds[i] = r.kind;
            t.values[i] = TF.eval(r.term, model);
        }
        final int m = s.observed == null ? 0 : s.observed.n;
        t.observed = new long[m];
        i = m;
        for (Rec r = s.observed; r != null; r = r.prev) {
            t.observed[--i] = TF.eval(r.term, model);
        }
        t.cuts = s.cuts;
        final int k = s.schedule == null ? 0 : s.schedule.n;
        t.schedule = new int[k];
        i = k;
        for (Rec r = s.schedule; r != null; r = r.prev) {
            i--;
            t.schedule[i] = (int) r.value;
        }
        return t;
    }

    @Override
    public void violation(final State s, final Map<T, Long> model, final String kind, final String message) {
        final Trace t = trace(s, model, kind, message);
        t.where = in.where(s);
        res.violations.add(t);
        if (!known.matches(prop, job.harness, message)) {
            clock.shorten(3_000);
        }
    }

    @Override
    public void obligation(final boolean trivially, final boolean decided) {
        res.obligations++;
        if (trivially) {
            res.trivial++;
        } else if (decided) {
            res.discharged++;
        } else {
            res.undecided++;
        }
    }

    @Override
    public void cover(final String label) {
        res.cover.merge(label, 1L, Long::sum);
    }

    @Override
    public void called(final MethodInfo m) {
        if (m.owner.jdk) {
            res.jdkFunctions.add(m.toString());
        } else if (!m.owner.name.startsWith("h/")) {
            res.functions.add(m.toString());
        }
    }

    @Override
    public Object param(final String name) {
        return job.params.get(name);
    }
}
