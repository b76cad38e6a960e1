package sx;

import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;
import java.util.TreeSet;

/** One harness on one configuration. */
final class Job {
    final String harness; // class name
    final Map<String, Object> params = new LinkedHashMap<>();
    int maxDepth = Integer.MAX_VALUE; // steps of a history
    int maxStates = 120_000;
    long maxPaths = 5_000_000;
    int ite = 0;
    boolean optional; // uses what is not public, and so may be gone
    final List<String> expectCover = new ArrayList<>();

    Job(final String harness) {
        this.harness = harness;
    }

    Job with(final String k, final Object v) {
        params.put(k, v);
        return this;
    }

    Job depth(final int d) {
        maxDepth = d;
        return this;
    }

    Job states(final int n) {
        maxStates = n;
        return this;
    }

    Job ite(final int n) {
        ite = n;
        return this;
    }

    Job optional() {
        optional = true;
        return this;
    }

    Job cover(final String... labels) {
        for (String l : labels) {
            expectCover.add(l);
        }
        return this;
    }

    String id() {
        return harness.substring(harness.lastIndexOf('.') + 1) + (params.isEmpty() ? "" : params.toString());
    }
}

/** A path of the engine, made concrete. */
final class Trace {
    String kind;
    String message;
    String where = "";
    char[] kinds;
    long[] values;
    long[] observed;
    int cuts;
    int[] schedule; // which thread does the next thing the others can see
    boolean confirmed;
    boolean big; // takes a lot of memory
    String replayed = "";
    String replayStack = "";
}

final class JobResult {
    final Job job;
    long states;
    long transitions;
    long paths;
    long forks;
    long subsumed;
    long obligations;
    long trivial;
    long discharged;
    long undecided;
    long queries;
    long cacheHits;
    long unsat;
    long sat;
    double solverSeconds;
    long instructions;
    int depth;
    boolean fixpoint;
    String truncated;
    String error;
    final Map<String, Long> cover = new TreeMap<>();
    final TreeSet<String> functions = new TreeSet<>();
    final TreeSet<String> jdkFunctions = new TreeSet<>();
    final List<Trace> violations = new ArrayList<>();
    final List<Trace> samples = new ArrayList<>();
    long validated;
    String engineProblem;
    double seconds;

    JobResult(final Job job) {
        this.job = job;
    }
}
