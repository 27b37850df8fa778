package vf;

import java.io.IOException;
import java.lang.management.ManagementFactory;
import java.lang.management.ThreadMXBean;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.HashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.TreeMap;
import java.util.concurrent.CopyOnWriteArrayList;
import java.util.concurrent.atomic.AtomicInteger;

/** Runs the cases of one check, watches them, and reports. */
final class Ctx {
    interface Body {
        void run(Case c) throws Throwable;
    }

    static final int THREADS =
            Math.max(2, Math.min(8, Runtime.getRuntime().availableProcessors()));
    static final long HANG_CPU_NS = 40_000_000_000L;

    final String id;
    final long seed;
    final boolean thorough;
    final Path root;
    final String replayFamily; // null when not replaying
    final int replayIndex;
    final long start = System.nanoTime();
    final long deadline; // stop starting cases after this

    private long cases;
    private long events;
    private long checks;
    private final Set<Long> distinct = new HashSet<>();
    private final Map<String, Long> counts = new TreeMap<>();
    private final List<String> samples = new ArrayList<>();
    private final Set<String> sampleFamilies = new HashSet<>();
    private final List<Case> running = new CopyOnWriteArrayList<>();
    private final List<String> assumptions = new ArrayList<>();
    private volatile boolean stop;
    private boolean capped;
    String rule = "";

    Ctx(
            final String id,
            final long seed,
            final boolean thorough,
            final Path root,
            final String replayFamily,
            final int replayIndex) {
        this.id = id;
        this.seed = seed;
        this.thorough = thorough;
        this.root = root;
        this.replayFamily = replayFamily;
        this.replayIndex = replayIndex;
        this.deadline = start + (thorough ? 600L : 300L) * 1_000_000_000L;
        final Thread w = new Thread(this::watch, "watchdog");
        w.setDaemon(true);
        w.start();
    }

    /** The number of cases for this tier. */
    int n(final int quick, final int deep) {
        return thorough ? deep
                : quick < 100 ? quick : Math.min(deep, (int) (quick * VOLUME.getOrDefault(id, 1.0)));
    }

    /** Makes the quick tier of the faster checks take about as long as that of the slower ones. */
    private static final Map<String, Double> VOLUME = new HashMap<>();

    static {
        final String[] volume = {"C01 4", "C02 6", "C03 3", "C04 5", "C05 5", "C08 10", "C09 6", "C10 7",
            "C11 8", "C12 3", "C13 1.5", "C14 12", "C15 12", "C16 8", "C17 12", "C18 5", "C19 4", "C20 10",
            "C21 4", "C22 12", "C23 12", "C24 6", "C25 4", "C26 2", "C27 12", "C28 1.5", "C29 8", "C33 6"};
        for (String v : volume) {
            VOLUME.put(v.substring(0, 3), Double.valueOf(v.substring(4)));
        }
    }

    void assume(final String s) {
        assumptions.add(s);
    }

    void count(final String k, final long n) {
        synchronized (this) {
            counts.merge(k, n, Long::sum);
        }
    }

    void parallel(final String family, final int n, final Body body) {
        run(family, n, body, THREADS);
    }

    void serial(final String family, final int n, final Body body) {
        run(family, n, body, 1);
    }

    private void run(final String family, final int n, final Body body, final int threads) {
        if (replayFamily != null) {
            if (family.equals(replayFamily)) {
                one(family, replayIndex, body);
            }
            return;
        }
        final AtomicInteger next = new AtomicInteger();
        final List<Thread> ts = new ArrayList<>();
        // no family starves the later ones, and each has some cases even on a slow machine
        final long now = System.nanoTime();
        final long until = now + Math.max(0, deadline - now) / 10 * 7;
        final long hard = start + 720L * 1_000_000_000L;
        for (int t = 0; t < threads; t++) {
            final Thread th =
                    new Thread(
                            null,
                            () -> {
                                for (int i; !stop && (i = next.getAndIncrement()) < n; ) {
                                    if (System.nanoTime() > (i < 32 ? hard : until)) {
                                        capped = true;
                                        break;
                                    }
                                    try {
                                        one(family, i, body);
                                    } catch (Throwable x) {
                                        broken(new Case(family, i, seed), x);
                                    }
                                }
                            },
                            family + "-" + t,
                            8L << 20);
            th.setDaemon(true);
            ts.add(th);
            th.start();
        }
        for (Thread th : ts) {
            try {
                th.join();
            } catch (InterruptedException e) {
                throw new IllegalStateException(e);
            }
        }
    }

    /** Runs the body in k threads at once, each with its own part of the case. */
    void threads(final Case c, final int k, final Body body) {
        final List<Thread> ts = new ArrayList<>();
        final List<Case> subs = new ArrayList<>();
        final java.util.concurrent.CyclicBarrier barrier = new java.util.concurrent.CyclicBarrier(k);
        for (int t = 0; t < k; t++) {
            final Case d = new Case(c.family, c.index, c.r.nextLong());
            d.config = c.config;
            subs.add(d);
            final Thread th = new Thread(null, () -> {
                d.thread = Thread.currentThread();
                running.add(d);
                try {
                    barrier.await();
                    body.run(d);
                } catch (Violation v) {
                    violated(d, v.getMessage(), v.getCause());
                } catch (Throwable x) {
                    if (fromLibrary(x)) {
                        violated(d, "unexpected " + x + " from " + d.currentOp, x);
                    } else {
                        broken(d, x);
                    }
                } finally {
                    running.remove(d);
                }
            }, c.family + "-sub" + t, 8L << 20);
            th.setDaemon(true);
            ts.add(th);
            th.start();
        }
        for (Thread th : ts) {
            try {
                th.join();
            } catch (InterruptedException e) {
                throw new IllegalStateException(e);
            }
        }
        for (Case d : subs) {
            c.extra += d.events + d.extra;
            c.checks += d.checks;
            c.fp = c.fp * 31 + d.fp;
            c.nontrivial |= d.nontrivial;
            for (Map.Entry<String, Long> e : d.counts.entrySet()) {
                c.count(e.getKey(), e.getValue());
            }
        }
    }

    private void one(final String family, final int index, final Body body) {
        final Case c = new Case(family, index, seed);
        c.thread = Thread.currentThread();
        running.add(c);
        try {
            body.run(c);
        } catch (Violation v) {
            violated(c, v.getMessage(), v.getCause());
        } catch (Throwable t) {
            if (fromLibrary(t)) {
                violated(c, "unexpected " + t + " from " + c.currentOp, t);
            } else {
                broken(c, t);
            }
        } finally {
            running.remove(c);
        }
        synchronized (this) {
            cases++;
            events += c.events + c.extra;
            checks += c.checks;
            if (c.nontrivial) {
                distinct.add(c.fp);
            }
            for (Map.Entry<String, Long> e : c.counts.entrySet()) {
                counts.merge(e.getKey(), e.getValue(), Long::sum);
            }
            if (samples.size() < 12 && c.nontrivial && sampleFamilies.add(family)) {
                final String[] lines = c.trace().split("\n");
                final StringBuilder sb = new StringBuilder();
                for (int i = 0; i < Math.min(lines.length, 12); i++) {
                    sb.append(i == 0 ? "" : ";").append(lines[i].replaceFirst("^ +", " "));
                }
                samples.add(
                        family + "#" + index + " [" + c.config + "] " + c.events + " calls:" + sb);
            }
        }
    }

    /** Whether a frame of the library is on the stack of the exception or its causes. */
    static boolean fromLibrary(final Throwable t) {
        for (Throwable x = t; x != null; x = x.getCause()) {
            for (StackTraceElement f : x.getStackTrace()) {
                if (f.getClassName().startsWith("com.bytefacets.")) {
                    return true;
                }
            }
        }
        return false;
    }

    private void violated(final Case c, final String msg, final Throwable cause) {
        synchronized (this) {
            if (stop && replayFamily == null) {
                return;
            }
            stop = true;
            final StringBuilder sb = new StringBuilder();
            sb.append("property=").append(id).append('\n');
            sb.append("seed=").append(seed).append('\n');
            sb.append("tier=").append(thorough ? "thorough" : "quick").append('\n');
            sb.append("family=").append(c.family).append('\n');
            sb.append("index=").append(c.index).append('\n');
            sb.append("config=").append(c.config).append('\n');
            sb.append("observed=").append(msg).append('\n');
            if (cause != null) {
                sb.append("exception=").append(cause).append('\n');
                int k = 0;
                for (StackTraceElement f : cause.getStackTrace()) {
                    if (k++ < 12) {
                        sb.append("    at ").append(f).append('\n');
                    }
                }
            }
            sb.append("calls:\n").append(c.trace());
            final Path file =
                    root.resolve("replays/" + id + "-" + c.family + "-" + c.index + ".txt");
            try {
                Files.createDirectories(file.getParent());
                Files.writeString(file, sb.toString());
                evidence(1);
            } catch (IOException e) {
                e.printStackTrace();
            }
            System.out.println(id + ": " + c.family + "#" + c.index + " [" + c.config + "]: " + msg);
            final String[] tail = c.trace().split("\n");
            for (int i = Math.max(0, tail.length - 8); i < tail.length; i++) {
                System.out.println(tail[i]);
            }
            System.out.println("VIOLATION property=" + id + " replay=" + root.relativize(file));
            System.out.flush();
            Runtime.getRuntime().halt(1);
        }
    }

    private void broken(final Case c, final Throwable t) {
        synchronized (this) {
            System.out.println(
                    "ERROR: harness failed in " + c.family + "#" + c.index + " [" + c.config + "]");
            t.printStackTrace(System.out);
            System.out.flush();
            Runtime.getRuntime().halt(3);
        }
    }

    /** A call that burns CPU without returning is a violation; a blocked one is inconclusive. */
    private void watch() {
        final ThreadMXBean mx = ManagementFactory.getThreadMXBean();
        final Map<Case, long[]> seen = new java.util.IdentityHashMap<>();
        while (true) {
            try {
                Thread.sleep(500);
            } catch (InterruptedException e) {
                return;
            }
            for (Case c : running) {
                final Thread th = c.thread;
                if (th == null) {
                    continue;
                }
                final long cpu = mx.getThreadCpuTime(th.getId());
                final long[] s = seen.computeIfAbsent(c, k -> new long[] {-1, 0});
                if (s[0] != c.epoch) {
                    s[0] = c.epoch;
                    s[1] = cpu;
                } else if (cpu - s[1] > HANG_CPU_NS) {
                    boolean inLib = false;
                    for (StackTraceElement f : th.getStackTrace()) {
                        inLib |= f.getClassName().startsWith("com.bytefacets.");
                    }
                    if (inLib) {
                        violated(c, "call does not end: " + c.currentOp, null);
                    }
                }
            }
            seen.keySet().retainAll(running);
        }
    }

    static String json(final String s) {
        final StringBuilder sb = new StringBuilder("\"");
        for (char ch : s.toCharArray()) {
            if (ch == '"' || ch == '\\') {
                sb.append('\\').append(ch);
            } else if (ch < 32 || ch > 126) {
                sb.append(String.format("\\u%04x", (int) ch));
            } else {
                sb.append(ch);
            }
        }
        return sb.append('"').toString();
    }

    private void evidence(final int violations) throws IOException {
        final StringBuilder sb = new StringBuilder("{\n");
        sb.append(" \"property\": ").append(json(id)).append(",\n");
        sb.append(" \"tier\": \"").append(thorough ? "thorough" : "quick").append("\",\n");
        sb.append(" \"seed\": ").append(seed).append(",\n \"level\": \"exploration\",\n");
        sb.append(" \"coverage\": {\n");
        sb.append("  \"evaluations\": ").append(cases).append(",\n");
        sb.append("  \"distinct_nontrivial\": ").append(distinct.size()).append(",\n");
        sb.append("  \"rule\": ").append(json(rule)).append(",\n");
        sb.append("  \"monitored_calls\": ").append(events).append(",\n");
        sb.append("  \"oracle_comparisons\": ").append(checks).append(",\n");
        sb.append("  \"stopped_by_time_limit\": ").append(capped).append(",\n");
        sb.append("  \"observed\": {");
        String sep = "";
        for (Map.Entry<String, Long> e : counts.entrySet()) {
            sb.append(sep).append(json(e.getKey())).append(": ").append(e.getValue());
            sep = ", ";
        }
        sb.append("},\n  \"samples\": [");
        sep = "";
        for (String s : samples) {
            sb.append(sep).append("\n   ").append(json(s));
            sep = ",";
        }
        sb.append("\n  ]\n },\n \"assumptions\": [");
        sep = "";
        for (String s : assumptions) {
            sb.append(sep).append("\n  ").append(json(s));
            sep = ",";
        }
        sb.append("\n ],\n");
        sb.append(
                String.format(
                        java.util.Locale.ROOT,
                        " \"wall_s\": %.2f,%n \"violations\": %d%n}%n",
                        (System.nanoTime() - start) / 1e9,
                        violations));
        final Path f = root.resolve("evidence/" + id + ".json");
        Files.createDirectories(f.getParent());
        Files.writeString(f, sb.toString());
    }

    /** Ends the check: 0 if enough was observed, 2 (inconclusive) otherwise. */
    int finish(final String... mustHaveSeen) throws IOException {
        if (replayFamily != null) {
            System.out.println(id + ": replayed " + replayFamily + "#" + replayIndex + ", no violation");
            return 0;
        }
        evidence(0);
        final List<String> missing = new ArrayList<>();
        for (String k : mustHaveSeen) {
            if (counts.getOrDefault(k, 0L) == 0) {
                missing.add(k);
            }
        }
        System.out.printf(
                "%s: held on %d cases (%d distinct non-trivial), %d monitored calls, %d comparisons,"
                        + " %.1f s%s%n",
                id,
                cases,
                distinct.size(),
                events,
                checks,
                (System.nanoTime() - start) / 1e9,
                capped ? " (time limit)" : "");
        if (cases == 0 || checks == 0 || distinct.isEmpty() || !missing.isEmpty()) {
            System.out.println("INCONCLUSIVE: not observed: " + missing);
            return 2;
        }
        return 0;
    }
}
