package vf;

import java.lang.invoke.MethodHandle;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;
import java.util.concurrent.CyclicBarrier;
import java.util.concurrent.ThreadLocalRandom;
import java.util.concurrent.atomic.AtomicLong;
import java.util.function.LongSupplier;
import java.util.function.Supplier;
import java.util.regex.Matcher;
import java.util.regex.Pattern;

/** C25, C26, C27. */
final class SnowflakeChecks {
    private SnowflakeChecks() {}

    static void register() {
        Main.CHECKS.put("C25", SnowflakeChecks::c25);
        Main.CHECKS.put("C26", SnowflakeChecks::c26);
        Main.CHECKS.put("C27", SnowflakeChecks::c27);
    }

    /** The clock failed on purpose. */
    static final class ClockFault extends RuntimeException {
        ClockFault() {
            super("clock fault injected by the monitor");
        }
    }

    static final class SnowLib {
        final MethodHandle make;
        final MethodHandle makeDefault;
        final MethodHandle next;
        final MethodHandle parse;

        SnowLib(final Class<?> c) {
            make = Lib.m(c, "snowflake", 2);
            makeDefault = Lib.m(c, "snowflake", 1);
            next = Lib.m(c, "nextId", 0);
            parse = Lib.m(c, "parse", 1);
        }

        static SnowLib plain() {
            return Lib.cached("Snow", k -> new SnowLib(Lib.cls("id.Snowflake")));
        }

        static SnowLib delayed() {
            return Lib.cached("SnowDelayed", k -> {
                try {
                    return new SnowLib(Class.forName(Lib.P + "id.Snowflake", true, new Yields(Lib.P + "id.")));
                } catch (ClassNotFoundException e) {
                    throw new IllegalStateException(e);
                }
            });
        }

        Object make(final LongSupplier clock, final String name) throws Throwable {
            return (Object) make.invokeExact((Object) clock, (Object) (Supplier<String>) () -> name);
        }

        long next(final Object s) throws Throwable {
            return (Long) (Object) next.invokeExact(s);
        }

        long[] parse(final Object s, final long id) throws Throwable {
            return (long[]) (Object) parse.invokeExact(s, (Object) id);
        }
    }

    static final long MAX_TS = (1L << 41) - 1;

    /** Just before a power of two. */
    private static long near(final Rng r, final int by) {
        return (1L << r.range(12, 40)) - r.nextInt(by);
    }

    /** A name with an unusual hash code. */
    private static String hashed(final Rng r) {
        final int h = r.pickInt(Integer.MIN_VALUE, Integer.MAX_VALUE, Integer.MIN_VALUE + 1, -1, 0, 1, 1023,
                1024, -1023, -1024, -1025, 1 << 30, Integer.MIN_VALUE + 1023, r.nextInt(1 << 30) << 2);
        long rest = h & 0xffffffffL;
        final StringBuilder b = new StringBuilder();
        for (long p = 923521; p > 0; p /= 31) {
            b.append((char) (rest / p));
            rest %= p;
        }
        if (b.toString().hashCode() != h) {
            throw new IllegalStateException("no name for hash code " + h);
        }
        return b.toString();
    }

    private static String name(final Rng r) {
        return r.pick("node", "a", "", "host-" + r.nextInt(100000), String.valueOf((char) r.nextInt(1024)),
                "\u03ff", "\u0000", "10.0.0." + r.nextInt(256), "\uffff\uffff");
    }

    // ------------------------------------------------------------------ concurrency

    /** A clock that never goes back, whoever reads it. */
    private static LongSupplier steady(final Case c, final long epoch, final int kind, final AtomicLong reads) {
        final int per = c.r.pickInt(1, 3, 20, 500, 5000, 20000);
        final long base = epoch + (c.r.nextInt(4) == 0 ? 0 : c.r.nextBoolean() ? near(c.r, 30)
                : c.r.nextInt(1 << 30) * 1000L);
        switch (kind) {
            case 0:
                {
                    c.config("clock=real");
                    final long t0 = System.nanoTime();
                    return () -> base + (System.nanoTime() - t0) / 1_000_000;
                }
            case 1: // advances after a number of reads
                c.config("clock=every", per, "reads from", base - epoch);
                return () -> base + reads.getAndIncrement() / per;
            case 2: // the same with delays after the reading
                c.config("clock=delayed, every", per, "reads from", base - epoch);
                return () -> {
                    final long t = base + reads.getAndIncrement() / per;
                    final int k = ThreadLocalRandom.current().nextInt(64);
                    if (k == 0) {
                        Thread.yield();
                    } else if (k < 4) {
                        final long until = System.nanoTime() + k * 3000L;
                        while (System.nanoTime() < until) {
                            Thread.onSpinWait();
                        }
                    }
                    return t;
                };
            default: // stalls for long, then jumps
                c.config("clock=jumping, every", per * 10, "reads from", base - epoch);
                return () -> base + reads.getAndIncrement() / (per * 10L) * 977;
        }
    }

    /** One recorded call. */
    private static final class Log {
        final long[] begin;
        final long[] end;
        final long[] id; // -1: failed
        int n;

        Log(final int n) {
            begin = new long[n];
            end = new long[n];
            id = new long[n];
        }
    }

    private static List<Log> history(final Case c, final SnowLib lib, final Object s, final int threads,
            final int calls, final boolean faults) throws Throwable {
        final AtomicLong tick = new AtomicLong();
        final List<Log> logs = new ArrayList<>();
        final List<Thread> ts = new ArrayList<>();
        final Throwable[] bad = {null};
        final CyclicBarrier start = new CyclicBarrier(threads);
        for (int t = 0; t < threads; t++) {
            final Log log = new Log(calls);
            logs.add(log);
            final Thread th = new Thread(() -> {
                try {
                    start.await();
                    for (int i = 0; i < calls && bad[0] == null; i++) {
                        int failed = 0;
                        log.begin[i] = tick.getAndIncrement();
                        long id;
                        try {
                            id = lib.next(s);
                        } catch (RuntimeException e) {
                            if (!faults) {
                                throw new Violation("nextId fails although the clock never goes back: " + e);
                            }
                            id = -1;
                            failed++;
                        }
                        if (id < 0 && failed == 0) {
                            throw new Violation("negative id " + id);
                        }
                        log.id[i] = id;
                        log.end[i] = tick.getAndIncrement();
                        log.n = i + 1;
                    }
                } catch (Throwable e) {
                    bad[0] = e;
                }
            }, "snow-" + t);
            th.setDaemon(true);
            ts.add(th);
            th.start();
        }
        long seen = -1;
        int still = 0;
        for (Thread th : ts) {
            while (th.isAlive() && bad[0] == null) {
                th.join(250);
                still = tick.get() == seen ? still + 1 : 0;
                seen = tick.get();
                if (still > 200) { // no call of any thread has ended for long
                    boolean in = true;
                    for (Thread o : ts) {
                        boolean lib1 = !o.isAlive();
                        for (StackTraceElement f : o.getStackTrace()) {
                            lib1 |= f.getClassName().startsWith("com.bytefacets.");
                        }
                        in &= lib1;
                    }
                    c.check(!in, "calls of nextId do not return");
                    still = 0;
                }
            }
        }
        if (bad[0] != null) {
            throw bad[0];
        }
        return logs;
    }

    /** Uniqueness and real-time order of the recorded history. */
    private static void judge(final Case c, final List<Log> logs) {
        int n = 0;
        for (Log l : logs) {
            n += l.n;
        }
        final long[][] ops = new long[n][];
        int k = 0;
        for (int t = 0; t < logs.size(); t++) {
            final Log l = logs.get(t);
            for (int i = 0; i < l.n; i++) {
                if (l.id[i] >= 0) {
                    ops[k++] = new long[] {l.begin[i], l.end[i], l.id[i], t};
                }
            }
        }
        final long[][] byId = Arrays.copyOf(ops, k);
        Arrays.sort(byId, (a, b) -> Long.compare(a[2], b[2]));
        long switches = 0;
        for (int i = 1; i < k; i++) {
            c.checks++;
            if (byId[i][2] == byId[i - 1][2]) {
                c.fail("id " + byId[i][2] + " returned to thread " + byId[i - 1][3] + " (call "
                        + byId[i - 1][0] + ".." + byId[i - 1][1] + ") and thread " + byId[i][3] + " (call "
                        + byId[i][0] + ".." + byId[i][1] + ")");
            }
            if (byId[i][3] != byId[i - 1][3]) {
                switches++;
            }
            if (i < 2000) {
                c.fp = c.fp * 31 + byId[i][3];
            }
        }
        final long[][] byBegin = byId.clone();
        Arrays.sort(byBegin, (a, b) -> Long.compare(a[0], b[0]));
        final long[][] byEnd = byId.clone();
        Arrays.sort(byEnd, (a, b) -> Long.compare(a[1], b[1]));
        int e = 0;
        long max = -1;
        long overlaps = 0;
        for (long[] op : byBegin) {
            while (e < k && byEnd[e][1] < op[0]) {
                max = Math.max(max, byEnd[e++][2]);
            }
            c.checks++;
            overlaps += byEnd[Math.min(e, k - 1)] != op ? 1 : 0;
            if (op[2] <= max) {
                c.fail("a call by thread " + op[3] + " that began at " + op[0] + " returned " + op[2]
                        + " although " + max + " had been returned before it began");
            }
        }
        c.extra += n;
        c.count("ids", k);
        c.count("thread switches between consecutive ids", switches);
        c.count("calls overlapping another", overlaps);
        c.nontrivial |= switches > 0;
    }

    private static long nodeOf(final Object s) {
        final Matcher m = Pattern.compile("NodeId=(\\d+)").matcher(s.toString());
        return m.find() ? Long.parseLong(m.group(1)) : -1;
    }

    private static void nodes(final Case c, final SnowLib lib, final Object s, final List<Log> logs)
            throws Throwable {
        long node = nodeOf(s);
        for (Log l : logs) {
            for (int i = 0; i < l.n; i++) {
                if (l.id[i] >= 0) {
                    final long x = l.id[i] >> 12 & 1023;
                    if (node < 0) {
                        node = x;
                    }
                    c.checks++;
                    if (x != node) {
                        c.fail("id " + l.id[i] + " carries node " + x + " instead of " + node);
                    }
                }
            }
        }
    }

    private static int c25(final Ctx x) throws Throwable {
        x.rule = "A case is one recorded history of 1 to 16 threads calling nextId on one generator with a"
                + " clock that never goes back (system, advancing every few or many reads, delayed,"
                + " stalling and jumping), judged for uniqueness, real-time order, sign and node id; in"
                + " one family the generator's bytecode carries a scheduling point before every field"
                + " access, call and monitor operation; non-trivial if ids of different threads are"
                + " adjacent; distinct by a hash of the order in which the threads got their ids.";
        x.assume("the clock is at or after the generator's epoch and within 41 bits of it");
        final int n = x.n(60, 3000);
        x.serial("threads", n, c -> concurrent(c, SnowLib.plain(), c.r.pickInt(2, 3, 4, 8, 8, 16), 24000));
        x.serial("delays", n, c -> concurrent(c, SnowLib.delayed(), c.r.pickInt(2, 2, 3, 4, 8), 6000));
        x.parallel("one thread", x.n(200, 5000), c -> concurrent(c, SnowLib.plain(), 1, 3000));
        x.parallel("generators", x.n(300, 5000), c -> {
            // generators side by side, each with its own history
            final SnowLib lib = SnowLib.plain();
            final long epoch = lib.parse(lib.make(() -> 0, "x"), 0)[0];
            final int k = 2 + c.r.nextInt(4);
            final Object[] s = new Object[k];
            final long[] last = new long[k];
            final long[] node = new long[k];
            final AtomicLong now = new AtomicLong(epoch + c.r.nextInt(1000000));
            for (int i = 0; i < k; i++) {
                final String name = name(c.r);
                s[i] = lib.make(now::get, name);
                last[i] = -1;
                node[i] = nodeOf(s[i]);
            }
            c.config("generators", k);
            for (int i = 0; i < 400; i++) {
                final int j = c.r.nextInt(k);
                if (c.r.nextInt(3) == 0) {
                    now.incrementAndGet();
                }
                c.op("nextId", j);
                final long id = lib.next(s[j]);
                c.check(id > last[j], "generator " + j + ": id " + id + " after " + last[j]);
                last[j] = id;
                if (node[j] < 0) {
                    node[j] = id >> 12 & 1023;
                }
                c.eq(node[j], id >> 12 & 1023, "node of generator " + j);
            }
            c.nontrivial = true;
        });
        x.count("injected delays", Yields.POINTS.sum());
        return x.finish("ids", "thread switches between consecutive ids", "calls overlapping another",
                "injected delays");
    }

    private static void concurrent(final Case c, final SnowLib lib, final int threads, final int total)
            throws Throwable {
        final long epoch = lib.parse(lib.make(() -> 0, "x"), 0)[0];
        final AtomicLong reads = new AtomicLong();
        final int kind = threads == 1 ? c.r.nextInt(4) : c.index % 4;
        final String name = name(c.r);
        final LongSupplier clock = steady(c, epoch, kind, reads);
        final Object s = lib.make(clock, name);
        c.config = c.config + " threads=" + threads;
        c.op("nextId", threads, total);
        final List<Log> logs = history(c, lib, s, threads, total / threads, false);
        judge(c, logs);
        nodes(c, lib, s, logs);
        c.nontrivial |= threads == 1;
        c.count("histories of " + threads + " threads");
    }

    // ------------------------------------------------------------------ clock faults

    /** A clock whose readings are drawn while they are asked for, and recorded. */
    private static final class Script implements LongSupplier {
        final Rng r;
        final long epoch;
        final int stall; // chance in 1000 of staying at the same value
        final int fault; // chance in 1000 of a fault
        long now;
        final List<Long> seen = new ArrayList<>(); // of the current call; null: threw
        int still;

        Script(final Rng r, final long epoch, final int stall, final int fault) {
            this.r = r;
            this.epoch = epoch;
            this.stall = stall;
            this.fault = fault;
            now = epoch + (r.nextBoolean() ? near(r, 200) : r.pickInt(0, 1, 1000000, 2000000000));
        }

        void begin() {
            seen.clear();
            still = 0;
        }

        @Override
        public long getAsLong() {
            if (r.nextInt(1000) < fault) {
                switch (r.nextInt(5)) {
                    case 0:
                        seen.add(null);
                        throw new ClockFault();
                    case 1:
                        now = Math.max(epoch, now - 1);
                        break;
                    case 2:
                        now = Math.max(epoch, now - r.nextInt(5));
                        break;
                    case 3:
                        now = Math.max(epoch, now - r.nextInt(100000));
                        break;
                    default:
                        now = Math.min(epoch + MAX_TS - 10_000_000, now + r.nextInt(100000));
                        break;
                }
            } else if (r.nextInt(1000) >= stall || ++still > 60) {
                now += r.nextInt(20) == 0 ? r.nextInt(1000) : 1;
                still = 0;
            }
            seen.add(now);
            return now;
        }
    }

    private static void faulty(final Case c) throws Throwable {
        final SnowLib lib = SnowLib.plain();
        final long epoch = lib.parse(lib.make(() -> 0, "x"), 0)[0];
        final int stall = c.r.pickInt(0, 300, 900, 1000, 1000, 1000);
        final int fault = c.r.pickInt(1, 5, 30, 200, 500);
        final Script clock = new Script(c.r, epoch, stall, fault);
        final Object s = lib.make(clock, name(c.r));
        c.config("stall=" + stall, "fault=" + fault);
        long last = -1;
        long lastTs = Long.MIN_VALUE;
        final int calls = c.r.pickInt(100, 1000, 9000, 9000);
        for (int i = 0; i < calls; i++) {
            clock.begin();
            if (clock.now < lastTs && c.r.nextInt(4) == 0) { // the clock recovers
                clock.now = lastTs + c.r.nextInt(2);
                c.count("clock recovered");
            }
            boolean thrown = false;
            long id = -1;
            c.op("nextId", clock.now - epoch);
            try {
                id = lib.next(s);
            } catch (RuntimeException e) {
                thrown = true;
            }
            final boolean anyThrow = clock.seen.contains(null);
            boolean behind = false;
            for (Long t : clock.seen) {
                behind |= t != null && t < lastTs;
            }
            c.check(!clock.seen.isEmpty(), "nextId did not look at the clock");
            if (clock.seen.size() > 1) {
                c.count("calls that waited");
            }
            if (thrown) {
                c.check(anyThrow || behind, "nextId fails although the clock read " + show(clock, epoch)
                        + " and the last id is of " + (lastTs - epoch));
                c.count(anyThrow ? "failed: clock threw" : "failed: clock behind");
                if (clock.seen.size() > 1) {
                    c.count("failed while waiting");
                }
                continue;
            }
            c.check(id > last, "id " + id + " after " + last + "; the clock read " + show(clock, epoch));
            final Long first = clock.seen.get(0);
            c.check(first != null && first >= lastTs, "an id is issued although the clock read "
                    + show(clock, epoch) + ", behind " + (lastTs - epoch));
            final long ts = (id >>> 22) + epoch;
            c.check(clock.seen.contains(ts), "the id's timestamp " + (ts - epoch) + " is none of "
                    + show(clock, epoch));
            last = id;
            lastTs = ts;
            c.count("ids issued");
        }
        c.nontrivial = last >= 0;
    }

    private static String show(final Script clock, final long epoch) {
        final StringBuilder sb = new StringBuilder("[");
        final int n = clock.seen.size();
        for (int i = Math.max(0, n - 8); i < n; i++) {
            final Long t = clock.seen.get(i);
            sb.append(sb.length() > 1 ? " " : "").append(t == null ? "fault" : String.valueOf(t - epoch));
        }
        return sb.append(']').toString();
    }

    /**
     * Exhausts a millisecond with a standing clock, then meets a scripted fault in the waiting loop.
     */
    private static void exhausted(final Case c) throws Throwable {
        final SnowLib lib = SnowLib.plain();
        final long epoch = lib.parse(lib.make(() -> 0, "x"), 0)[0];
        final long base = epoch + (c.r.nextBoolean() ? near(c.r, 4) : c.r.pickInt(0, 1, 5000, 2000000000));
        final long[] now = {base};
        final long[][] script = {null}; // readings to give next; Long.MIN_VALUE throws
        final int[] at = {0};
        final List<Long> seen = new ArrayList<>();
        final LongSupplier clock = () -> {
            if (script[0] != null && at[0] < script[0].length) {
                now[0] = script[0][at[0]] == Long.MIN_VALUE ? now[0] : script[0][at[0]];
                if (script[0][at[0]++] == Long.MIN_VALUE) {
                    seen.add(null);
                    throw new ClockFault();
                }
            }
            seen.add(now[0]);
            return now[0];
        };
        final Object s = lib.make(clock, name(c.r));
        long last = -1;
        long lastTs = Long.MIN_VALUE;
        final int warm = c.r.pickInt(4096, 4096, 4096, 4095, 4090);
        for (int i = 0; i < warm; i++) {
            final long id = lib.next(s);
            c.check(id > last, "id " + id + " after " + last + " with a standing clock");
            last = id;
            lastTs = (id >>> 22) + epoch;
        }
        final int rounds = 6;
        final StringBuilder name = new StringBuilder();
        for (int round = 0; round < rounds; round++) {
            // scripted readings, the last of which is later than anything so far
            final int n = 1 + c.r.nextInt(5);
            final long[] sc = new long[n + 1];
            for (int i = 0; i < n; i++) {
                sc[i] = c.r.pick(lastTs, lastTs, lastTs, Long.MIN_VALUE, Math.max(epoch, lastTs - 1),
                        Math.max(epoch, lastTs - 1000), lastTs + 1);
            }
            sc[n] = Math.max(lastTs, sc[n > 0 ? n - 1 : 0]) + 1 + c.r.nextInt(3);
            script[0] = sc;
            at[0] = 0;
            for (int call = 0; call < 8; call++) {
                seen.clear();
                c.op("nextId", at[0], now[0] - epoch);
                long id = -1;
                boolean thrown = false;
                try {
                    id = lib.next(s);
                } catch (RuntimeException e) {
                    thrown = true;
                }
                final boolean threw = seen.contains(null);
                boolean behind = false;
                for (Long t : seen) {
                    behind |= t != null && t < lastTs;
                }
                if (seen.size() > 1) {
                    c.count("calls that waited");
                }
                if (thrown) {
                    c.check(threw || behind, "nextId fails although the clock read " + seen
                            + " and the last id is of " + lastTs);
                    c.count(threw ? "failed: clock threw" : "failed: clock behind");
                    if (seen.size() > 1) {
                        c.count("failed while waiting");
                    }
                    continue;
                }
                c.check(id > last, "id " + id + " after " + last + "; the clock read " + seen);
                c.check(seen.get(0) != null && seen.get(0) >= lastTs, "an id is issued although the clock"
                        + " read " + seen + ", behind " + lastTs);
                c.check(seen.contains((id >>> 22) + epoch), "the id's timestamp " + ((id >>> 22) + epoch)
                        + " is none of " + seen);
                last = id;
                lastTs = (id >>> 22) + epoch;
                c.count("ids issued");
            }
            // use up the millisecond again
            if (c.r.nextBoolean()) {
                for (int i = 0; i < 4080; i++) {
                    final long id = lib.next(s);
                    c.check(id > last, "id " + id + " after " + last + " with a standing clock");
                    last = id;
                    lastTs = (id >>> 22) + epoch;
                }
                while ((last & 4095) != 4095 && (last >>> 22) + epoch == now[0]) {
                    final long id = lib.next(s);
                    c.check(id > last, "id " + id + " after " + last + " with a standing clock");
                    last = id;
                }
            }
        }
        c.config("exhausted", warm);
        c.nontrivial = true;
        c.count("milliseconds used up");
    }

    private static int c26(final Ctx x) throws Throwable {
        x.rule = "A case is one history of nextId calls under a clock whose readings (standing, advancing,"
                + " stepping back by little or much, jumping, throwing) are drawn reading by reading, also"
                + " in the waiting loop after a millisecond is used up, or one recorded history of several"
                + " threads under such a clock; every outcome is judged against the readings recorded"
                + " during the call; non-trivial if an id was issued; distinct by a hash of the readings.";
        x.assume("the clock is at or after the generator's epoch and within 41 bits of it");
        x.parallel("faults", x.n(1000, 60000), SnowflakeChecks::faulty);
        x.parallel("exhausted", x.n(800, 30000), SnowflakeChecks::exhausted);
        x.serial("threads", x.n(40, 1500), c -> {
            final boolean slow = c.index % 2 == 1;
            final SnowLib lib = slow ? SnowLib.delayed() : SnowLib.plain();
            final long epoch = lib.parse(lib.make(() -> 0, "x"), 0)[0];
            final AtomicLong now = new AtomicLong(epoch + 1000000);
            final int per = c.r.pickInt(2, 50, 1000);
            final LongSupplier clock = () -> {
                final int k = ThreadLocalRandom.current().nextInt(1000);
                if (k < 5) {
                    throw new ClockFault();
                }
                if (k < 10) {
                    return now.get() - 1 - ThreadLocalRandom.current().nextInt(50);
                }
                return k < 1000 / per + 11 ? now.incrementAndGet() : now.get();
            };
            final int threads = c.r.pickInt(2, 4, 8);
            c.config("threads=" + threads, "advance 1 in " + per, slow ? "delays" : "");
            final Object s = lib.make(clock, "n");
            c.op("nextId", threads);
            final List<Log> logs = history(c, lib, s, threads, (slow ? 4000 : 20000) / threads, true);
            judge(c, logs);
            nodes(c, lib, s, logs);
            c.count("concurrent histories");
        });
        return x.finish("failed: clock threw", "failed: clock behind", "failed while waiting",
                "calls that waited", "ids issued", "milliseconds used up", "concurrent histories", "clock recovered");
    }

    // ------------------------------------------------------------------ decoding

    private static int c27(final Ctx x) throws Throwable {
        x.rule = "A case is one history of nextId calls under a steady clock whose value during each call is"
                + " known, compared call by call with the expected timestamp, node and sequence, or a batch"
                + " of ids taken apart by parse and put together again; distinct by a hash of the ids.";
        x.assume("the clock is at or after the generator's epoch and within 41 bits of it");
        x.parallel("sequence", x.n(600, 20000), c -> {
            final SnowLib lib = SnowLib.plain();
            final long epoch = lib.parse(lib.make(() -> 0, "x"), 0)[0];
            final long[] now = {epoch + c.r.pick(0L, 1L, 1000L, 2000000000L, MAX_TS - 100000, MAX_TS / 2,
                    (long) c.r.nextInt(1 << 30) * 1000)};
            final int[] reads = {0};
            final int patience = c.r.range(1, 40);
            final LongSupplier clock = () -> {
                if (++reads[0] > patience) { // asked again and again: time passes
                    now[0]++;
                    reads[0] = 0;
                }
                return now[0];
            };
            final int stay = c.r.pickInt(1, 3, 100, 3000, 100000, 100000);
            final Object s = lib.make(clock, name(c.r));
            c.config("from=" + (now[0] - epoch), "stay=" + stay);
            long node = nodeOf(s);
            long ts = -1;
            int seq = 0;
            final int calls = stay > 1000 ? 9500 : 1500;
            for (int i = 0; i < calls; i++) {
                if (i > 0 && c.r.nextInt(stay) == 0) {
                    now[0] += c.r.nextInt(4) == 0 ? c.r.nextInt(50) : 1;
                }
                reads[0] = 0;
                final long before = now[0];
                c.op("nextId", before - epoch);
                final long id = lib.next(s);
                final long[] p = lib.parse(s, id);
                c.eq(3, p.length, "parts of an id");
                if (before == ts) {
                    seq++;
                } else {
                    seq = 0;
                }
                ts = before;
                if (seq == 4096) { // used up: from a later millisecond
                    c.check(now[0] > before, "more than 4096 ids in one millisecond");
                    ts = now[0];
                    seq = 0;
                    c.count("milliseconds used up");
                } else {
                    c.eq(before, now[0], "time passed although the millisecond is not used up");
                }
                if (node < 0) {
                    node = p[1];
                }
                c.eq(ts, p[0], "timestamp of id " + id);
                c.eq(node, p[1], "node of id " + id);
                c.eq(seq, p[2], "sequence of id " + id);
                c.eq((ts - epoch) << 22 | node << 12 | seq, id, "layout of the id");
                c.count("ids issued");
            }
            c.nontrivial = true;
        });
        x.parallel("parse", x.n(4000, 200000), c -> {
            final SnowLib lib = SnowLib.plain();
            final Object s = lib.make(() -> 0, name(c.r));
            final long epoch = lib.parse(s, 0)[0];
            c.config("parse");
            for (int i = 0; i < 100; i++) {
                final long ts = c.r.pick(0L, 1L, MAX_TS, MAX_TS - 1, 1L << c.r.nextInt(41),
                        c.r.nextLong() & MAX_TS);
                final long node = c.r.pick(0, 1, 1023, 512, c.r.nextInt(1024));
                final long seq = c.r.pick(0, 1, 4095, 2048, c.r.nextInt(4096));
                final long id = ts << 22 | node << 12 | seq;
                c.op("parse", id);
                final long[] p = lib.parse(s, id);
                c.eq(ts + epoch, p[0], "timestamp of id " + id);
                c.eq(node, p[1], "node of id " + id);
                c.eq(seq, p[2], "sequence of id " + id);
            }
            c.nontrivial = true;
            c.count("ids taken apart", 100);
        });
        x.parallel("names", 64, c -> {
            final SnowLib lib = SnowLib.plain();
            final long epoch = lib.parse(lib.make(() -> 0, "x"), 0)[0];
            final long now = epoch + 5000;
            c.config("names", c.index);
            for (int i = 0; i < 64; i++) {
                final Object s;
                if (i == 0) {
                    s = (Object) lib.makeDefault.invokeExact((Object) (LongSupplier) () -> now);
                } else {
                    s = lib.make(() -> now, i < 32 ? String.valueOf((char) (c.index * 31 + i))
                            : i < 48 ? hashed(c.r) : name(c.r));
                }
                c.op("nextId", i);
                final long[] p = lib.parse(s, lib.next(s));
                c.check(p[1] >= 0 && p[1] < 1024, "node id " + p[1]);
                final long node = nodeOf(s);
                c.eq(node < 0 ? p[1] : node, p[1], "node of " + s);
                c.eq(now, p[0], "timestamp");
                c.eq(0L, p[2], "sequence of the first id");
            }
            c.nontrivial = true;
            c.count("named generators", 64);
        });
        return x.finish("milliseconds used up", "ids issued", "ids taken apart", "named generators");
    }
}
