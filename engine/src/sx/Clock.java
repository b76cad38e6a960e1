package sx;

/** When to stop: no new paths after the soft deadline, no more solving after the hard one. */
final class Clock {
    private volatile long soft;
    private volatile long hard;

    Clock(final long soft, final long hard) {
        this.soft = soft;
        this.hard = hard;
    }

    /** A view that can be shortened on its own. */
    static final class View {
        private final Clock shared;
        private long soft = Long.MAX_VALUE;

        View(final Clock shared) {
            this.shared = shared;
        }

        boolean over() {
            return System.nanoTime() > Math.min(soft, shared.soft);
        }

        /** Milliseconds left for solving. */
        long left() {
            return (Math.min(soft == Long.MAX_VALUE ? soft : soft + 10_000_000_000L, shared.hard) - System.nanoTime()) / 1_000_000;
        }

        void shorten(final long ms) {
            soft = Math.min(soft, System.nanoTime() + ms * 1_000_000);
        }
    }

    void shorten(final long softMs, final long hardMs) {
        final long now = System.nanoTime();
        soft = Math.min(soft, now + softMs * 1_000_000);
        hard = Math.min(hard, now + hardMs * 1_000_000);
    }
}
