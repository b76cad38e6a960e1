package sx;

import java.io.IOException;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;
import java.util.TreeSet;

/** Writes what a run covered. */
final class Evidence {
    private Evidence() {}

    static String q(final String s) {
        final StringBuilder sb = new StringBuilder("\"");
        for (int i = 0; i < s.length(); i++) {
            final char c = s.charAt(i);
            if (c == '"' || c == '\\') {
                sb.append('\\').append(c);
            } else if (c == '\n') {
                sb.append("\\n");
            } else if (c < 32 || c > 126) {
                sb.append(String.format("\\u%04x", (int) c));
            } else {
                sb.append(c);
            }
        }
        return sb.append('"').toString();
    }

    private static String list(final Iterable<String> l) {
        final StringBuilder sb = new StringBuilder("[");
        String sep = "";
        for (String s : l) {
            sb.append(sep).append(q(s));
            sep = ", ";
        }
        return sb.append(']').toString();
    }

    static void write(final Path file, final String prop, final String tier, final long seed, final Plan.Spec spec,
            final List<JobResult> rs, final int violations, final double wall) throws IOException {
        long states = 0;
        long transitions = 0;
        long validated = 0;
        long obligations = 0;
        long discharged = 0;
        long trivial = 0;
        long undecided = 0;
        long queries = 0;
        long hits = 0;
        long unsat = 0;
        long sat = 0;
        long instr = 0;
        long paths = 0;
        long forks = 0;
        double solver = 0;
        boolean all = true;
        final TreeSet<String> functions = new TreeSet<>();
        final TreeSet<String> jdk = new TreeSet<>();
        final List<String> samples = new ArrayList<>();
        final List<String> jobs = new ArrayList<>();
        final Map<String, Long> cover = new TreeMap<>();
        for (JobResult r : rs) {
            states += r.states;
            transitions += r.transitions;
            paths += r.paths;
            forks += r.forks;
            validated += r.validated;
            obligations += r.obligations;
            discharged += r.discharged;
            trivial += r.trivial;
            undecided += r.undecided;
            queries += r.queries;
            hits += r.cacheHits;
            unsat += r.unsat;
            sat += r.sat;
            solver += r.solverSeconds;
            instr += r.instructions;
            all &= r.truncated == null && r.error == null;
            functions.addAll(r.functions);
            jdk.addAll(r.jdkFunctions);
            r.cover.forEach((k, v) -> cover.merge(k, v, Long::sum));
            jobs.add(String.format("%s: %d states, %d steps, %d complete paths, longest history %d, %s, %d obligations, "
                            + "%d queries, %.1f s", r.job.id(), r.states, r.transitions, r.paths, r.depth,
                    r.truncated != null ? "cut off by its budget (" + r.truncated + ")" : r.fixpoint
                            ? "all reachable states seen (histories of any length)"
                            : r.states > 0 ? "all histories up to the bound" : "all paths",
                    r.obligations, r.queries, r.seconds));
            if (samples.size() < 12 && !r.samples.isEmpty()) {
                final Trace t = r.samples.get(r.samples.size() - 1);
                samples.add(r.job.id() + " inputs " + Main.inputs(t));
            }
        }
        final StringBuilder sb = new StringBuilder("{\n");
        sb.append("  \"property\": ").append(q(prop)).append(",\n  \"tier\": ").append(q(tier)).append(",\n  \"seed\": ")
                .append(seed).append(",\n  \"level\": \"model_checking\",\n  \"coverage\": {\n");
        // a transition is a step between cut points, or a branch both sides of which were taken; a state is a symbolic state at a cut point of a harness, or the end of a path of one that has no cut points
        sb.append("    \"states\": ").append(states + paths).append(",\n");
        sb.append("    \"transitions\": ").append(transitions + forks).append(",\n");
        sb.append("    \"traces_validated_against_impl\": ").append(validated).append(",\n");
        sb.append("    \"exhaustive_within_bounds\": ").append(all && undecided == 0).append(",\n");
        sb.append("    \"bounds\": ").append(q(spec.bounds)).append(",\n");
        sb.append("    \"assertions_evaluated\": ").append(obligations).append(",\n");
        sb.append("    \"assertions_decided_by_solver\": ").append(discharged).append(",\n");
        sb.append("    \"assertions_constant_on_their_path\": ").append(trivial).append(",\n");
        sb.append("    \"undecided_queries\": ").append(undecided).append(",\n");
        sb.append("    \"solver_queries\": ").append(queries).append(",\n");
        sb.append("    \"solver_sat\": ").append(sat).append(",\n");
        sb.append("    \"solver_unsat\": ").append(unsat).append(",\n");
        sb.append("    \"solver_answers_from_cache\": ").append(hits).append(",\n");
        sb.append("    \"solver_seconds\": ").append(String.format("%.2f", solver)).append(",\n");
        sb.append("    \"bytecode_instructions_executed_symbolically\": ").append(instr).append(",\n");
        sb.append("    \"functions_encoded\": ").append(list(functions)).append(",\n");
        sb.append("    \"jdk_functions_encoded\": ").append(jdk.size()).append(",\n");
        sb.append("    \"situations_reached\": ").append(list(cover.keySet())).append(",\n");
        sb.append("    \"jobs\": ").append(list(jobs)).append(",\n");
        sb.append("    \"samples\": ").append(list(samples)).append("\n  },\n");
        sb.append("  \"assumptions\": ").append(list(spec.assumptions)).append(",\n");
        sb.append("  \"wall_s\": ").append(String.format("%.2f", wall)).append(",\n");
        sb.append("  \"violations\": ").append(violations).append("\n}\n");
        Files.createDirectories(file.getParent());
        Files.writeString(file, sb.toString());
    }
}
