package vf;

import java.util.Map;
import java.util.TreeMap;

/** One history: its random source, its recorded events and its coverage counters. */
final class Case {
    static final int RING = 400;
    final String family;
    final int index;
    final Rng r;
    final Object[][] ring = new Object[RING][];
    long events; // monitored calls
    long extra; // monitored calls not in the ring
    long checks; // oracle comparisons
    long fp; // fingerprint of configuration and history
    boolean nontrivial;
    String config = "";
    final Map<String, Long> counts = new TreeMap<>();
    volatile long epoch; // advances with every recorded event; watched for hangs
    volatile Thread thread;
    volatile String currentOp = "";

    Case(final String family, final int index, final long seed) {
        this.family = family;
        this.index = index;
        this.r = new Rng(Rng.mix(seed * 31 + family.hashCode()) + index * 0x632BE59BD9B4E019L);
    }

    void config(final Object... parts) {
        final StringBuilder sb = new StringBuilder();
        for (Object o : parts) {
            sb.append(sb.length() == 0 ? "" : " ").append(o);
        }
        config = sb.toString();
        fp = fp * 1000003 + config.hashCode();
    }

    /** Records a call (before it is made). */
    void op(final String name, final Object a, final Object b) {
        ring[(int) (events++ % RING)] = new Object[] {name, a, b};
        fp = (fp ^ name.hashCode() ^ hash(a) * 31L ^ hash(b) * 961L) * 0x9E3779B97F4A7C15L;
        fp ^= fp >>> 29;
        currentOp = name;
        epoch++;
    }

    void op(final String name, final Object a) {
        op(name, a, NONE);
    }

    void op(final String name) {
        op(name, NONE, NONE);
    }

    void tick() {
        epoch++;
    }

    static final Object NONE = new Object();

    private static int hash(final Object o) {
        return o == null || o == NONE || o.getClass().isArray() || o.getClass() == Object.class
                ? 7
                : o.hashCode();
    }

    void count(final String what) {
        counts.merge(what, 1L, Long::sum);
    }

    void count(final String what, final long n) {
        counts.merge(what, n, Long::sum);
    }

    void fail(final String msg) {
        throw new Violation(msg);
    }

    void check(final boolean ok, final String msg) {
        checks++;
        if (!ok) {
            throw new Violation(msg);
        }
    }

    void eq(final Object expected, final Object actual, final String what) {
        checks++;
        if (expected == null ? actual != null : !expected.equals(actual)) {
            throw new Violation(
                    what + ": expected " + T.show(expected) + " but was " + T.show(actual));
        }
    }

    void eq(final long expected, final long actual, final String what) {
        checks++;
        if (expected != actual) {
            throw new Violation(what + ": expected " + expected + " but was " + actual);
        }
    }

    void eq(final Integer expected, final int actual, final String what) {
        eq((Object) expected, (Object) Integer.valueOf(actual), what);
    }

    void eq(final int expected, final Integer actual, final String what) {
        eq((Object) Integer.valueOf(expected), (Object) actual, what);
    }

    String trace() {
        final StringBuilder sb = new StringBuilder();
        final long from = Math.max(0, events - RING);
        if (from > 0) {
            sb.append("  ... ").append(from).append(" earlier calls\n");
        }
        for (long i = from; i < events; i++) {
            final Object[] e = ring[(int) (i % RING)];
            sb.append("  ").append(i).append(": ").append(e[0]);
            if (e[1] != NONE) {
                sb.append(' ').append(T.show(e[1]));
            }
            if (e[2] != NONE) {
                sb.append(", ").append(T.show(e[2]));
            }
            sb.append('\n');
        }
        return sb.toString();
    }
}
