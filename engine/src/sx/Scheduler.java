package sx;

import java.util.ArrayList;
import java.util.List;

/** Runs the threads of a replay one at a time, each doing what others can see when the recorded schedule says so. */
public final class Scheduler {
    private static final ThreadLocal<Integer> ME = new ThreadLocal<>();
    private final int[] schedule; // the threads, in the order of what they do
    private final List<Boolean> done = new ArrayList<>();
    private final boolean free; // nobody waits any more after the end of the schedule
    private int at;
    private int running; // -1: nobody
    private Throwable failure;

    public Scheduler(final int[] schedule, final boolean free) {
        this.free = free;
        this.schedule = schedule == null ? new int[0] : schedule;
        done.add(false);
    }

    private static int me() {
        final Integer i = ME.get();
        return i == null ? 0 : i;
    }

    /** Waits until it is this thread's turn. */
    void point() {
        if (done.size() > 1) {
            turn(me());
        }
    }

    private synchronized void turn(final int me) {
        if (running == me) {
            running = -1;
            notifyAll();
        }
        while (running != -1 || at >= schedule.length || schedule[at] != me) {
            if (failure != null) {
                rethrow();
            }
            if (at >= schedule.length && running == -1) { // the recorded path has ended
                if (free) {
                    return;
                }
                throw new Sym.End();
            }
            try {
                wait();
            } catch (InterruptedException e) {
                throw new IllegalStateException(e);
            }
        }
        running = me;
        at++;
    }

    private void rethrow() {
        if (failure instanceof Error) {
            throw (Error) failure;
        }
        if (failure != null) {
            throw (RuntimeException) failure;
        }
    }

    synchronized int spawn(final Runnable r) {
        final int id = done.size();
        final Thread t = new Thread(() -> {
            Throwable f = null;
            ME.set(id);
            try {
                turn(id);
                r.run();
            } catch (Throwable e) {
                f = e;
            }
            finish(id, f);
        }, "replayed-" + id);
        t.setDaemon(true);
        done.add(false);
        t.start();
        return id;
    }

    private synchronized void finish(final int id, final Throwable f) {
        if (f != null && failure == null) {
            failure = f;
        }
        done.set(id, true);
        if (running == id) {
            running = -1;
        }
        notifyAll();
    }

    void join(final int t) {
        turn(me());
        synchronized (this) {
            rethrow();
            while (free && !done.get(t)) {
                try {
                    wait();
                } catch (InterruptedException e) {
                    throw new IllegalStateException(e);
                }
            }
            if (!done.get(t)) {
                throw new Sym.Diverged("thread " + t + " has not ended");
            }
        }
    }
}
