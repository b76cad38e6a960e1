package sx;

import java.io.IOException;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.TreeMap;
import java.util.TreeSet;
import java.util.concurrent.ExecutorService;
import java.util.concurrent.Executors;
import java.util.concurrent.Future;

/** Runs the check of one property: compiles the tree, explores the jobs, replays what they find, writes the evidence. */
public final class Main {
    private Main() {}

    public static void main(final String[] args) throws Exception {
        final Map<String, String> opt = new TreeMap<>();
        for (int i = 0; i + 1 < args.length; i += 2) {
            opt.put(args[i].substring(2), args[i + 1]);
        }
        int rc;
        try {
            rc = run(opt);
        } catch (Throwable e) {
            e.printStackTrace(System.out);
            rc = 2;
        }
        System.out.flush();
        Interp.dumpForks(); Runtime.getRuntime().halt(rc);
    }

    private static int run(final Map<String, String> opt) throws Exception {
        final long t0 = System.nanoTime();
        final String prop = opt.get("prop");
        final String tier = opt.getOrDefault("tier", "quick");
        final boolean thorough = tier.equals("thorough");
        final Path verif = Path.of(opt.get("verif"));
        final Path repo = Path.of(opt.get("repo"));
        final Path work = Path.of(opt.get("work"));
        final long seed = Long.parseLong(opt.getOrDefault("seed", "1"));
        final Plan.Spec spec = Plan.spec(prop, thorough);
        if (spec == null) {
            System.out.println("unknown property " + prop);
            return 2;
        }
        final List<Job> jobs = new ArrayList<>(spec.jobs);
        if (opt.containsKey("only")) {
            jobs.removeIf(j -> !j.id().contains(opt.get("only")));
        }
        final Set<String> harnesses = new LinkedHashSet<>();
        for (Job j : jobs) {
            harnesses.add(j.harness);
        }
        String err = Builder.compile(repo, verif, work, harnesses, opt.get("cp"));
        if (err != null && jobs.stream().anyMatch(j -> j.optional) && jobs.stream().anyMatch(j -> !j.optional)) {
            for (Job j : jobs) {
                if (j.optional) {
                    System.out.println(j.id() + " does not compile against this tree and is left out");
                    harnesses.remove(j.harness);
                }
            }
            jobs.removeIf(j -> j.optional);
            err = Builder.compile(repo, verif, work, harnesses, opt.get("cp"));
        }
        if (err != null) {
            System.out.println("the tree or the harnesses do not compile:\n" + err);
            return 2;
        }
        System.out.printf("%s: compiled in %.1f s, %d jobs%n", prop, (System.nanoTime() - t0) / 1e9, jobs.size());
        final List<Path> path = List.of(work.resolve("classes"));
        final long budget = Long.parseLong(opt.getOrDefault("budget", thorough ? "3000" : "420"));
        final Clock clock = new Clock(t0 + budget * 1_000_000_000L, t0 + (budget + 120) * 1_000_000_000L);
        final Findings known = Findings.load(verif.resolve("known_findings.txt"));
        final ExecutorService pool = Executors.newFixedThreadPool(Integer.parseInt(opt.getOrDefault("threads", "8")), r -> {
            final Thread t = new Thread(null, r, "job", 64 << 20);
            t.setDaemon(true);
            return t;
        });
        final List<Future<JobResult>> futures = new ArrayList<>();
        for (Job j : jobs) {
            futures.add(pool.submit(() -> {
                final JobResult r = new Explorer(j, path, clock, seed, known, prop).run();
                confirm(r, path);
                if (r.violations.stream().anyMatch(t -> t.confirmed && !known.matches(prop, j.harness, t.message))) {
                    clock.shorten(5_000, 15_000);
                }
                return r;
            }));
        }
        final List<JobResult> results = new ArrayList<>();
        for (Future<JobResult> f : futures) {
            final JobResult r = f.get();
            results.add(r);
            System.out.println(summary(r));
        }
        int rc = 0;
        int violations = 0;
        int errors = 0;
        for (JobResult r : results) {
            if (r.error != null || r.engineProblem != null) {
                if (++errors <= 3) {
                    System.out.println("ERROR " + r.job.id() + ": " + (r.error != null ? r.error : r.engineProblem));
                }
                rc = Math.max(rc, 2);
            }
            if (r.error == null && r.truncated == null && r.violations.isEmpty()) {
                for (String c : r.job.expectCover) {
                    if (!r.cover.containsKey(c)) {
                        System.out.println("ERROR " + r.job.id() + ": the situation '" + c + "' was never reached");
                        rc = Math.max(rc, 2);
                    }
                }
            }
        }
        boolean alarm = false;
        for (JobResult r : results) {
            for (Trace t : r.violations) {
                if (!t.confirmed) {
                    continue;
                }
                if (known.matches(prop, r.job.harness, t.message)) {
                    System.out.println("KNOWN-FINDING: property=" + prop + " " + r.job.id() + ": " + t.message);
                    continue;
                }
                violations++;
                if (!alarm) {
                    alarm = true;
                    final Path file = verif.resolve("evidence/replay-" + prop + ".json");
                    Files.createDirectories(file.getParent());
                    writeReplay(file, prop, r, t);
                    System.out.println(describe(r, t));
                    System.out.println("VIOLATION property=" + prop + " replay=" + file);
                }
            }
        }
        if (alarm) {
            rc = 1;
        }
        if (!opt.containsKey("only")) {
            Evidence.write(verif.resolve("evidence/" + prop + ".json"), prop, tier, seed, spec, results, violations,
                    (System.nanoTime() - t0) / 1e9);
        }
        System.out.printf("%s %s: exit %d after %.1f s%n", prop, tier, rc, (System.nanoTime() - t0) / 1e9);
        return rc;
    }

    /** Runs what the engine claims on the real classes. */
    private static void confirm(final JobResult r, final List<Path> path) {
        for (Trace t : r.violations) {
            final Replay.Outcome o;
            if (t.big) {
                synchronized (Main.class) {
                    o = Replay.run(r.job.harness, r.job.params, t, path, 60_000);
                }
            } else {
                o = Replay.run(r.job.harness, r.job.params, t, path, 10_000);
            }
            t.replayed = o.kind + (o.message.isEmpty() ? "" : ": " + o.message);
            t.replayStack = o.stack;
            t.confirmed = switch (t.kind) {
                case "check" -> o.kind.equals("check") || o.kind.equals("uncaught");
                case "deadlock" -> o.kind.equals("check") || o.kind.equals("uncaught") || o.kind.equals("hang");
                case "uncaught" -> o.kind.equals("uncaught") || o.kind.equals("check");
                default -> o.kind.equals("hang") || o.kind.equals("check") || o.kind.equals("uncaught");
            };
            if (!t.confirmed) {
                if (t.kind.equals("hang") && o.kind.equals("ok")) {
                    r.engineProblem = "a path was cut off after its instruction budget: " + t.message + "\n" + t.where;
                } else {
                    r.engineProblem = "not reproduced on the real classes: " + t.kind + " " + t.message + "\n" + t.where
                            + "  replay: " + t.replayed + "\n" + o.stack + "  inputs " + Arrays.toString(t.values);
                }
            }
        }
        for (Trace t : r.samples) {
            if (r.violations.isEmpty()) {
                final Replay.Outcome o = Replay.run(r.job.harness, r.job.params, t, path, 20_000);
                if (!o.kind.equals("ok") || !Arrays.equals(o.observed, t.observed)) {
                    r.engineProblem = "a path of the engine goes differently on the real classes: " + o.kind + " " + o.message
                            + "\n" + o.stack + "  observed " + Arrays.toString(o.observed) + " expected "
                            + Arrays.toString(t.observed) + " inputs " + Arrays.toString(t.values) + " cuts " + t.cuts;
                    break;
                }
                r.validated++;
            }
        }
        if (r.violations.stream().anyMatch(t -> t.confirmed)) {
            r.engineProblem = null;
        }
    }

    private static String summary(final JobResult r) {
        return String.format("  %-60s %s states=%d steps=%d paths=%d depth=%d%s obligations=%d (%d by solver) queries=%d "
                        + "undecided=%d solver=%.1fs time=%.1fs validated=%d%s",
                r.job.id(), r.error != null ? "ERROR" : r.violations.isEmpty() ? "ok" : "VIOLATED", r.states, r.transitions,
                r.paths, r.depth, r.fixpoint ? " complete" : "", r.obligations, r.discharged, r.queries, r.undecided,
                r.solverSeconds, r.seconds, r.validated, r.truncated == null ? "" : " TRUNCATED by " + r.truncated);
    }

    private static String describe(final JobResult r, final Trace t) {
        return r.job.id() + ": " + t.kind + ": " + t.message + "\n" + t.where + "  inputs: " + inputs(t)
                + "\n  on the real classes: " + t.replayed + "\n" + t.replayStack;
    }

    static String inputs(final Trace t) {
        final StringBuilder sb = new StringBuilder("[");
        for (int i = 0; i < t.values.length; i++) {
            sb.append(i == 0 ? "" : ", ");
            switch (t.kinds[i]) {
                case 'F' -> sb.append(Float.intBitsToFloat((int) t.values[i])).append('f');
                case 'D' -> sb.append(Double.longBitsToDouble(t.values[i])).append('d');
                case 'c' -> sb.append('#').append(t.values[i]);
                default -> sb.append(t.values[i]);
            }
        }
        return sb.append(']').toString();
    }

    private static void writeReplay(final Path file, final String prop, final JobResult r, final Trace t) throws IOException {
        final StringBuilder sb = new StringBuilder("{\n");
        sb.append("  \"property\": ").append(Evidence.q(prop)).append(",\n");
        sb.append("  \"harness\": ").append(Evidence.q(r.job.harness)).append(",\n");
        sb.append("  \"params\": ").append(Evidence.q(r.job.params.toString())).append(",\n");
        sb.append("  \"kind\": ").append(Evidence.q(t.kind)).append(",\n");
        sb.append("  \"message\": ").append(Evidence.q(t.message)).append(",\n");
        sb.append("  \"cuts\": ").append(t.cuts).append(",\n");
        sb.append("  \"kinds\": ").append(Evidence.q(new String(t.kinds))).append(",\n");
        sb.append("  \"inputs\": ").append(Arrays.toString(t.values)).append(",\n");
        sb.append("  \"readable\": ").append(Evidence.q(inputs(t))).append(",\n");
        sb.append("  \"schedule\": ").append(Evidence.q(Arrays.toString(t.schedule))).append(",\n");
        sb.append("  \"where\": ").append(Evidence.q(t.where)).append(",\n");
        sb.append("  \"onTheRealClasses\": ").append(Evidence.q(t.replayed + "\n" + t.replayStack)).append("\n}\n");
        Files.writeString(file, sb.toString());
    }
}
