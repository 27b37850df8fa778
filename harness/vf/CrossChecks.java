package vf;

import java.lang.reflect.Array;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.IdentityHashMap;
import java.util.Iterator;
import java.util.List;
import java.util.Map;

/** C13, C28-C32: properties across all kinds of collections. */
final class CrossChecks {
    private CrossChecks() {}

    static void register() {
        Main.CHECKS.put("C13", CrossChecks::c13);
        Main.CHECKS.put("C28", CrossChecks::c28);
        Main.CHECKS.put("C29", CrossChecks::c29);
        Main.CHECKS.put("C30", CrossChecks::c30);
        Main.CHECKS.put("C31", x -> {
            x.rule = "A case is one history ended by clear (with reserved entries, live iterators, a"
                    + " grown capacity, emptied or not) and continued, call by call, together with a"
                    + " newly built instance of the same configuration; non-trivial if at least 2"
                    + " elements were held before.";
            x.assume("single-threaded use");
            HashChecks.clearedHash(x);
            HeapChecks.clearedHeap(x);
            SeqChecks.cleared(x);
            return x.finish("hash twins", "heap twins", "hydra twins", "deques", "vectors",
                    "cleared with reserved entries", "cleared after a copy");
        });
        Main.CHECKS.put("C32", x -> {
            x.rule = "A case is one history with failing calls put in between (invalid entries, keys and"
                    + " fields, empty structures, refused settings, consumers, hash and equality"
                    + " functions throwing at a chosen call), each followed by a complete comparison"
                    + " with the model which ignores the failed call; non-trivial if at least 2"
                    + " elements were held at once.";
            x.assume("single-threaded use; hash and equality functions fail on the operation's own key,"
                    + " not while a table is being rebuilt; heap comparators do not throw");
            HashChecks.failingHash(x);
            HeapChecks.failingHeap(x);
            SeqChecks.failing(x);
            BiChecks.failing(x);
            return x.finish("consumer failures", "hash or equality failures", "unknown keys",
                    "out-of-range entries", "second removals", "stale iterators", "refused heap calls",
                    "refused hydra calls", "refused store calls", "invalid keys", "replacement refused");
        });
    }

    // ------------------------------------------------------------------ C13

    private static void bounded(final Case c, final Object o, final double content, final String what) {
        final Walk w = new Walk(o);
        final double bound = 32 * content + 512;
        c.check(w.slots <= bound, what + ": " + w.slots + " array slots are held, more than " + (long) bound
                + " although content, initial capacity and load factor justify about " + (long) content);
        c.count("storage measured");
        c.count("slots measured", w.slots);
    }

    private static T.Mode plainMode(final Rng r) {
        return r.pick(T.Mode.SEQ, T.Mode.NEG, T.Mode.STRIDE);
    }

    private static int c13(final Ctx x) throws Throwable {
        x.rule = "A case is one churn history of thousands of calls (adds and removals of all kinds,"
                + " reserve/free, clear, copies back and forth, traversals with removals, refused calls)"
                + " on one instance (or pair) of one class with at most a few elements at a time, with"
                + " the array slots reachable from it counted repeatedly; non-trivial if it made at"
                + " least 500 calls.";
        x.assume("at most 32 times the content plus initial capacity (content divided by the load factor"
                + " for hash collections) plus 512 array slots count as bounded");
        final int ops = x.thorough ? 40000 : 4000;
        x.parallel("hash", x.n(600, 6000), c -> {
            final Rng r = c.r;
            final HashLib lib = HashChecks.lib(c.index);
            final HashMachine m = churner(c, lib);
            HashMachine b = null;
            if (r.chance(4)) {
                b = churner(c, lib);
                b.keyGen = m.keyGen;
                b.keySpace = m.keySpace;
            }
            final int[][] mixes = {HashChecks.CHURN, HashChecks.BASE, HashChecks.RESV, HashChecks.DRAIN,
                HashChecks.ITER};
            int[] w = r.pick(mixes);
            final boolean fixed = r.nextBoolean(); // one mixture throughout
            double lf = Math.min(m.lf, b == null ? 1 : b.lf);
            for (int i = 0; i < ops; i++) {
                if (!fixed && r.chance(300)) {
                    w = r.pick(mixes);
                }
                final HashMachine t = b != null && r.nextInt(3) == 0 ? b : m;
                final int op = HashChecks.pick(r, w);
                if (op == HashChecks.VERIFY && r.nextInt(20) != 0) {
                    continue;
                }
                HashChecks.step(t, b == null ? null : t == m ? b : m, op);
                if (b != null && r.chance(100)) {
                    if (r.nextBoolean()) {
                        m.copyFrom(b);
                    } else {
                        b.copyFrom(m);
                    }
                    c.count("copies");
                }
                final int held = Math.max(m.peak, b == null ? 0 : b.peak);
                c.check(t.used <= held, "entry " + (t.used - 1) + " handed out although at most " + held
                        + " entries were ever held at once");
                if (r.chance(500) || i == ops - 1) {
                    final double content = (held + 2) / lf + m.cap + (b == null ? 0 : b.cap);
                    bounded(c, m.o, content, lib.name());
                    if (b != null) {
                        bounded(c, b.o, content, lib.name());
                    }
                }
            }
            m.verify();
            c.nontrivial = c.events >= 500;
            c.count("hash churn");
        });
        x.parallel("heap", x.n(400, 4000), c -> {
            final Rng r = c.r;
            final HeapLib lib = HeapChecks.lib(c.index);
            final HeapMachine m = HeapMachine.random(c, lib, 0);
            m.keySpace = r.pickInt(1, 3, 10, 1000);
            m.keyGen = HeapMachine.keys(lib.k, r.pick(T.Mode.SEQ, T.Mode.NEG), 0);
            final int max = r.pickInt(1, 2, 3, 5, 12);
            final int fill = r.pickInt(30, 50, 70);
            for (int i = 0; i < ops; i++) {
                if (m.size < max && r.nextInt(100) < fill) {
                    m.insertRandom();
                } else {
                    switch (r.nextInt(12)) {
                        case 0:
                            m.resetKey();
                            break;
                        case 1:
                            m.setComparator();
                            break;
                        case 2:
                            if (r.chance(6)) {
                                m.clear();
                            }
                            break;
                        case 3:
                            m.removeInactive();
                            break;
                        case 4:
                        case 5:
                        case 6:
                            m.poll();
                            break;
                        default:
                            m.removeRandom();
                    }
                }
                c.check(m.used <= m.peak, "entry " + (m.used - 1) + " handed out although at most " + m.peak
                        + " elements were ever held at once");
                if (r.chance(500) || i == ops - 1) {
                    bounded(c, m.o, m.peak + m.cap, lib.c.getSimpleName());
                }
            }
            c.nontrivial = c.events >= 500;
            c.count("heap churn");
        });
        x.parallel("deque", x.n(200, 2000), c -> {
            final Rng r = c.r;
            final SeqChecks.DequeMachine m = SeqChecks.DequeMachine.random(c, T.ALL[c.index % 10]);
            final int max = r.pickInt(1, 2, 3, 7, 8, 9, 20);
            final int fill = r.pickInt(30, 50, 60);
            final int addFirst = r.pickInt(0, 50, 100, r.nextInt(101));
            final int remFirst = r.pickInt(0, 50, 100, r.nextInt(101));
            for (int i = 0; i < ops; i++) {
                if (m.model.size() < max && r.nextInt(100) < fill) {
                    m.add(r.nextInt(100) < addFirst, m.value());
                } else if (r.chance(200)) {
                    m.clear();
                } else {
                    m.remove(r.nextInt(100) < remFirst);
                }
                if (r.chance(500) || i == ops - 1) {
                    bounded(c, m.o, m.peak + m.cap, m.lib.t.lib + "Deque");
                }
            }
            c.nontrivial = c.events >= 500;
            c.count("deque churn");
        });
        x.parallel("hydra", x.n(300, 3000), c -> {
            final Rng r = c.r;
            final SeqChecks.HydraMachine m = SeqChecks.HydraMachine.random(c, T.ALL[c.index % 10]);
            final int max = r.pickInt(1, 2, 3, 8, 20);
            final int fill = r.pickInt(30, 50, 60);
            final int addFirst = r.pickInt(0, 50, 100, r.nextInt(101));
            final int remFirst = r.pickInt(0, 50, 100, r.nextInt(101));
            int entries = 0;
            for (int i = 0; i < ops; i++) {
                if (m.size < max && r.nextInt(100) < fill) {
                    entries = Math.max(entries,
                            m.add(r.nextInt(m.lists), r.nextInt(100) < addFirst, m.value()) + 1);
                } else if (r.chance(200)) {
                    m.clear();
                } else {
                    m.remove(r.nextInt(m.lists), r.nextInt(100) < remFirst);
                }
                c.check(entries <= m.peak, "entry " + (entries - 1) + " handed out although at most "
                        + m.peak + " elements were ever held at once");
                if (r.chance(500) || i == ops - 1) {
                    bounded(c, m.o, m.peak + m.cap + m.lists + m.initialQueues, m.lib.t.lib + "HydraDeque");
                }
            }
            c.nontrivial = c.events >= 500;
            c.count("hydra churn");
        });
        x.parallel("vector", x.n(100, 1000), c -> {
            final Rng r = c.r;
            final SeqChecks.VectorMachine m = SeqChecks.VectorMachine.random(c, T.ALL[c.index % 10]);
            final int max = r.pickInt(1, 2, 5, 20);
            final int request = r.pickInt(1, 8, 30);
            for (int i = 0; i < ops; i++) {
                if (m.model.size() < max) {
                    m.append(m.value());
                } else {
                    m.clear();
                }
                if (r.chance(50)) {
                    m.ensure(r.nextInt(request));
                }
                if (r.chance(500) || i == ops - 1) {
                    bounded(c, m.o, m.peak + m.cap + request, m.lib.t.lib + "Vector");
                }
            }
            c.nontrivial = c.events >= 500;
            c.count("vector churn");
        });
        for (int k = 0; k < 2; k++) {
            final boolean matrix = k == 1;
            x.parallel(matrix ? "matrix" : "store", x.n(100, 1000), c -> {
                final Rng r = c.r;
                final SeqChecks.StoreMachine m =
                        new SeqChecks.StoreMachine(c, T.ALL[c.index % 10], matrix);
                final int rows = 1 + r.nextInt(Math.min(m.span, 40));
                final int fs = Math.max(1, m.fields);
                final long init = new Walk(m.o).slots;
                for (int i = 0; i < ops / 4; i++) {
                    m.set(r.nextInt(rows), matrix ? r.nextInt(fs) : 0);
                    if (r.chance(100)) {
                        m.refused();
                    }
                    if (r.chance(300) || i == ops / 4 - 1) {
                        bounded(c, m.o, init + (double) rows * fs + m.chunk, "store");
                    }
                }
                c.nontrivial = c.events >= 500;
                c.count("store churn");
            });
        }
        x.parallel("bi", x.n(300, 3000), c -> {
            final Rng r = c.r;
            final BiMachine m = new BiMachine(c, 0);
            final int max = r.pickInt(1, 2, 4, 10);
            for (int i = 0; i < ops; i++) {
                if (m.liveList.size() < max && r.nextInt(100) < 55) {
                    m.putRandom();
                } else {
                    switch (r.nextInt(10)) {
                        case 0:
                            if (m.reservedCount < 3) {
                                m.reserve();
                            }
                            break;
                        case 1:
                            m.free();
                            break;
                        case 2:
                            if (r.chance(4)) {
                                m.inactive();
                            }
                            break;
                        case 3:
                        case 4:
                        case 5:
                            m.removeAt();
                            break;
                        case 6:
                            m.remove(m.leftKey(r.nextInt(m.lefts)), m.rightKey(r.nextInt(m.rights)));
                            break;
                        default: {
                            final int e = m.randomLive();
                            if (e >= 0) {
                                m.remove(BiMachine.left(m.pairAt[e]), BiMachine.right(m.pairAt[e]));
                            }
                        }
                    }
                }
                c.check(m.used <= m.peak + 3, "entry " + (m.used - 1) + " handed out although at most "
                        + (m.peak + 3) + " were ever held at once");
                if (r.chance(500) || i == ops - 1) {
                    bounded(c, m.o, m.peak + 3 + m.initialCapacity + m.lefts + m.rights + 100, "bi");
                }
            }
            c.nontrivial = c.events >= 500;
            c.count("bi churn");
        });
        return x.finish("hash churn", "heap churn", "deque churn", "hydra churn", "vector churn",
                "store churn", "bi churn", "copies", "storage measured", "entry reused", "clear");
    }

    private static HashMachine churner(final Case c, final HashLib lib) throws Throwable {
        final Rng r = c.r;
        final HashMachine m = new HashMachine(c, lib, 0);
        m.keySpace = r.pickInt(1, 2, 3, 5, 10, 12);
        final T.Mode mode = plainMode(r);
        m.keyGen = i -> lib.k.key(i, mode, 0);
        final int cap = r.pickInt(1, 1, 2, 4, 8, 16);
        final double lf = r.pick(0.75, 0.75, 1.0, 0.5, 0.3);
        c.config(c.config, lib.name(), "cap=" + cap, "lf=" + lf, "keys=" + mode + "/" + m.keySpace);
        m.create(cap, lf);
        return m;
    }

    // ------------------------------------------------------------------ C29

    private static boolean tracked(final Object o) {
        return o instanceof String || o instanceof T.Coll || o instanceof List || o instanceof Long
                || o instanceof Integer;
    }

    private static void retained(final Case c, final Object o, final Map<Object, Boolean> live) {
        final Walk w = new Walk(o);
        for (Object s : w.stored) {
            if (tracked(s) && !live.containsKey(s)) {
                c.fail("the collection still references " + T.show(s) + " although it is not in it");
            }
        }
        c.checks += w.stored.size();
        c.count("object graphs searched");
        c.count("objects met", w.stored.size());
    }

    private static int c29(final Ctx x) throws Throwable {
        x.rule = "A case is one history on one collection of String or generic keys, values or elements"
                + " (a new object for every argument), with the objects reachable from the collection"
                + " compared with the live and reserved ones of the model after every few calls;"
                + " non-trivial if at least 2 elements were held at once.";
        x.assume("objects at reserved entries, default keys and values and the configured functions may be"
                + " referenced");
        x.parallel("hash", x.n(2500, 60000), c -> {
            final Rng r = c.r;
            final T[] refs = {T.STRING, T.GENERIC};
            final boolean refKey = r.nextInt(3) > 0;
            final T k = refKey ? r.pick(refs) : r.pick(T.KEYS);
            final T v = refKey ? r.pick(null, T.STRING, T.GENERIC, T.INT) : r.pick(refs);
            final HashLib lib = HashLib.of(k, v);
            final HashMachine m = HashMachine.random(c, lib, 0);
            m.keySpace = Math.min(m.keySpace, 70);
            HashMachine other = null;
            if (r.chance(3)) {
                other = HashMachine.randomLike(c, lib, 0, m);
                HashChecks.drive(other, null, 30, HashChecks.GROW);
            }
            if (lib.customizable() && r.chance(4)) {
                HashChecks.custom(m, r.nextInt(HashChecks.CUSTOM_KINDS));
            }
            final int n = 20 + r.nextInt(200);
            final int every = r.pickInt(1, 1, 3, 10);
            int[] w = HashChecks.BASE;
            for (int i = 0; i < n; i++) {
                if (r.chance(15)) {
                    w = r.pick(HashChecks.BASE, HashChecks.RESV, HashChecks.DRAIN, HashChecks.ITER,
                            HashChecks.GROW, HashChecks.CHURN);
                }
                int op = HashChecks.pick(r, w);
                if (r.chance(40)) {
                    op = r.pickInt(HashChecks.CLEAR, HashChecks.COPY);
                }
                HashChecks.step(m, other, op);
                if (i % every == 0 || op == HashChecks.CLEAR || op == HashChecks.COPY) {
                    retained(c, m.o, m.liveObjects());
                }
            }
            retained(c, m.o, m.liveObjects());
            if (r.nextBoolean()) {
                while (m.liveCount > 0) {
                    m.removeLive();
                }
                while (m.reservedCount > 0) {
                    m.freeReserved();
                }
                c.eq(0, m.liveObjects().size(), "model");
            } else {
                m.clear();
            }
            retained(c, m.o, m.liveObjects());
            c.nontrivial = m.peak >= 2;
            c.count("hash histories");
        });
        x.parallel("heap", x.n(2000, 50000), c -> {
            final Rng r = c.r;
            final T[] refs = {T.STRING, T.GENERIC};
            final boolean refKey = r.nextBoolean();
            final HeapLib lib = HeapLib.of(refKey ? r.pick(refs) : r.pick(T.KEYS),
                    refKey ? r.pick(T.ALL) : r.pick(refs));
            final HeapMachine m = HeapMachine.random(c, lib, 0);
            final int n = 20 + r.nextInt(200);
            final int every = r.pickInt(1, 1, 3, 10);
            int[] w = HeapChecks.BASE;
            for (int i = 0; i < n; i++) {
                if (r.chance(15)) {
                    w = r.pick(HeapChecks.BASE, HeapChecks.CHURN, HeapChecks.DRAINING, HeapChecks.GROW,
                            HeapChecks.DEFAULTS);
                }
                final int op = r.chance(60) ? HeapChecks.CLEAR : HeapChecks.pickOp(r, w);
                HeapChecks.step(m, op);
                if (i % every == 0 || op == HeapChecks.CLEAR) {
                    heapRetained(c, m);
                }
            }
            if (r.nextBoolean()) {
                m.drain();
            } else {
                m.clear();
            }
            heapRetained(c, m);
            c.nontrivial = m.peak >= 2;
            c.count("heap histories");
        });
        x.parallel("deque", x.n(1500, 40000), c -> {
            final Rng r = c.r;
            final SeqChecks.DequeMachine m =
                    SeqChecks.DequeMachine.random(c, r.pick(T.STRING, T.GENERIC));
            final int n = 20 + r.nextInt(150);
            for (int i = 0; i < n; i++) {
                if (r.chance(30)) {
                    m.clear();
                } else {
                    m.step();
                }
                retained(c, m.o, wrapped(m.model, new IdentityHashMap<>()));
            }
            c.nontrivial = m.peak >= 2;
            c.count("deque histories");
        });
        x.parallel("hydra", x.n(1500, 40000), c -> {
            final Rng r = c.r;
            final SeqChecks.HydraMachine m =
                    SeqChecks.HydraMachine.random(c, r.pick(T.STRING, T.GENERIC));
            final int n = 20 + r.nextInt(150);
            for (int i = 0; i < n; i++) {
                if (r.chance(30)) {
                    m.clear();
                } else {
                    m.step();
                }
                final Map<Object, Boolean> live = new IdentityHashMap<>();
                for (ArrayDeque<Object[]> l : m.model.values()) {
                    wrapped(l, live);
                }
                retained(c, m.o, live);
            }
            c.nontrivial = m.peak >= 2;
            c.count("hydra histories");
        });
        x.parallel("vector", x.n(800, 20000), c -> {
            final Rng r = c.r;
            final SeqChecks.VectorMachine m =
                    SeqChecks.VectorMachine.random(c, r.pick(T.STRING, T.GENERIC));
            final int n = 10 + r.nextInt(100);
            for (int i = 0; i < n; i++) {
                if (r.chance(15)) {
                    m.clear();
                } else if (r.chance(15)) {
                    m.ensure(r.nextInt(50));
                } else {
                    m.append(m.value());
                }
                final Map<Object, Boolean> live = new IdentityHashMap<>();
                for (Object o : m.model) {
                    live.put(o, true);
                }
                retained(c, m.o, live);
            }
            c.nontrivial = m.peak >= 2;
            c.count("vector histories");
        });
        for (int k = 0; k < 2; k++) {
            final boolean matrix = k == 1;
            x.parallel(matrix ? "matrix" : "store", x.n(200, 4000), c -> {
                final Rng r = c.r;
                final SeqChecks.StoreMachine m =
                        new SeqChecks.StoreMachine(c, r.pick(T.STRING, T.GENERIC), matrix);
                final int rows = 1 + r.nextInt(Math.min(m.span, 30));
                for (int i = 0; i < 40; i++) {
                    m.set(r.nextInt(rows), matrix ? r.nextInt(m.fields) : 0);
                    if (i % 5 == 0) {
                        final Map<Object, Boolean> live = new IdentityHashMap<>();
                        for (Object o : m.model.values()) {
                            live.put(o, true);
                        }
                        retained(c, m.o, live);
                    }
                }
                c.nontrivial = m.model.size() >= 2;
                c.count("store histories");
            });
        }
        x.parallel("large", x.n(40, 400), CrossChecks::retainedLarge);
        return x.finish("hash histories", "heap histories", "deque histories", "hydra histories",
                "vector histories", "store histories", "large collections searched", "reserved", "copyFrom", "clear",
                "removed while traversing");
    }

    /** Thousands of elements, most or all of them taken out again. */
    private static void retainedLarge(final Case c) throws Throwable {
        final Rng r = c.r;
        final int n = r.pickInt(1100, 5000, 20_000, 70_000);
        final T ref = r.pick(T.STRING, T.GENERIC);
        final boolean refKey = r.nextBoolean();
        final int left = r.pickInt(0, 1, 100, n / 2);
        c.nontrivial = true;
        c.count("large collections searched");
        switch (c.index % 5) {
            case 0: {
                final T k = refKey ? ref : r.pick(T.INT, T.LONG, T.FLOAT);
                final HashMachine m = new HashMachine(c, HashLib.of(k, refKey ? r.pick(null, T.INT) : ref), 0);
                m.keySpace = n;
                final T.Mode mode = r.pick(T.Mode.SEQ, T.Mode.RANDOM, T.Mode.NEG);
                final long salt = r.nextLong();
                m.keyGen = i -> k.key(i, mode, salt);
                c.config(m.lib.name(), n, left);
                m.create(r.pickInt(1, 16, 1000), 0.75);
                HashChecks.fill(m, n);
                retained(c, m.o, m.liveObjects());
                while (m.liveCount > left) {
                    if (r.nextBoolean()) {
                        m.removeLive();
                    } else {
                        m.removeAtLive();
                    }
                }
                while (m.reservedCount > 0) {
                    m.freeReserved();
                }
                retained(c, m.o, m.liveObjects());
                HashChecks.fill(m, n / 2);
                m.clear();
                retained(c, m.o, m.liveObjects());
                break;
            }
            case 1: {
                final HeapMachine m = HeapMachine.random(c, HeapLib.of(refKey ? ref : T.INT,
                        refKey ? T.INT : ref), 0);
                c.config(c.config, n, left);
                for (int i = 0; i < n; i++) {
                    m.insertRandom();
                }
                heapRetained(c, m);
                while (m.size > left) {
                    if (r.nextBoolean()) {
                        m.poll();
                    } else {
                        m.removeRandom();
                    }
                }
                heapRetained(c, m);
                for (int i = 0; i < n / 2; i++) {
                    m.insertRandom();
                }
                m.clear();
                heapRetained(c, m);
                break;
            }
            case 2: {
                final SeqChecks.DequeMachine m = SeqChecks.DequeMachine.random(c, ref);
                c.config(c.config, n, left);
                for (int round = 0; round < 2; round++) {
                    for (int i = 0; i < n; i++) {
                        m.add(r.nextBoolean(), m.value());
                    }
                    retained(c, m.o, wrapped(m.model, new IdentityHashMap<>()));
                    while (round == 0 && m.model.size() > left) {
                        m.remove(r.nextBoolean());
                    }
                    retained(c, m.o, wrapped(m.model, new IdentityHashMap<>()));
                }
                m.clear();
                retained(c, m.o, new IdentityHashMap<>());
                break;
            }
            case 3: {
                final SeqChecks.HydraMachine m = SeqChecks.HydraMachine.random(c, ref);
                m.lists = r.pickInt(1, 5, 1000);
                c.config(c.config, n, left, m.lists);
                for (int round = 0; round < 2; round++) {
                    for (int i = 0; i < n; i++) {
                        m.add(r.nextInt(m.lists), r.nextBoolean(), m.value());
                    }
                    for (int i = 0; round == 0 && i < m.lists && m.size > left; i++) {
                        while (!m.list(i).isEmpty() && m.size > left) {
                            m.remove(i, r.nextBoolean());
                        }
                    }
                    final Map<Object, Boolean> live = new IdentityHashMap<>();
                    for (ArrayDeque<Object[]> l : m.model.values()) {
                        wrapped(l, live);
                    }
                    retained(c, m.o, live);
                }
                m.clear();
                retained(c, m.o, new IdentityHashMap<>());
                break;
            }
            default: {
                final SeqChecks.VectorMachine m = SeqChecks.VectorMachine.random(c, ref);
                c.config(c.config, n);
                for (int i = 0; i < n; i++) {
                    m.append(m.value());
                }
                final Map<Object, Boolean> live = new IdentityHashMap<>();
                for (Object o : m.model) {
                    live.put(o, true);
                }
                retained(c, m.o, live);
                m.clear();
                retained(c, m.o, new IdentityHashMap<>());
            }
        }
    }

    private static void heapRetained(final Case c, final HeapMachine m) throws Throwable {
        final Map<Object, Boolean> live = m.liveObjects();
        live.put(m.defKey, true);
        live.put(m.defVal, true);
        // an equal one set earlier may have been kept
        live.put(m.lib.getDefKey(m.o), true);
        live.put(m.lib.getDefVal(m.o), true);
        retained(c, m.o, live);
    }

    private static Map<Object, Boolean> wrapped(final ArrayDeque<Object[]> q, final Map<Object, Boolean> live) {
        for (Object[] w : q) {
            live.put(w[0], true);
        }
        return live;
    }

    // ------------------------------------------------------------------ C28

    /** One instance with its monitor. */
    abstract static class Actor {
        boolean busy;

        abstract void step() throws Throwable;

        abstract void verify() throws Throwable;

        /** Queries; allowed inside the consumers of the instance's own traversals. */
        void query() throws Throwable {}

        /** A second monitor for reading. */
        Actor view(final Case d) {
            return null;
        }
    }

    static final int KINDS = 10;

    private static Actor actor(final Case c, final int kind, final T k, final T v) throws Throwable {
        final Rng r = c.r;
        switch (kind) {
            case 0:
            case 1: {
                final HashLib lib = HashLib.of(k, kind == 0 ? null : v);
                final HashMachine m = HashMachine.random(c, lib, HashMachine.ALL);
                m.keySpace = Math.min(m.keySpace, 70);
                if (lib.customizable() && r.nextBoolean()) {
                    HashChecks.custom(m, r.nextInt(HashChecks.CUSTOM_KINDS));
                }
                return new HashActor(m);
            }
            case 2: {
                final HeapMachine m = HeapMachine.random(c, HeapLib.of(k, v), HeapMachine.ALL);
                m.setComparator();
                return new HeapActor(m);
            }
            case 3: {
                final SeqChecks.DequeMachine m = SeqChecks.DequeMachine.random(c, v);
                return new Actor() {
                    @Override
                    void step() throws Throwable {
                        if (r.chance(10)) {
                            m.verify();
                        }
                        m.step();
                    }

                    @Override
                    void verify() throws Throwable {
                        m.verify();
                    }

                    @Override
                    void query() throws Throwable {
                        m.touch();
                        m.verify();
                    }

                    @Override
                    Actor view(final Case d) {
                        final SeqChecks.DequeMachine w = m.view(d);
                        return reader(w::verify, w::touch);
                    }
                };
            }
            case 4: {
                final SeqChecks.HydraMachine m = SeqChecks.HydraMachine.random(c, v);
                return new Actor() {
                    @Override
                    void step() throws Throwable {
                        m.step();
                        if (r.chance(10)) {
                            m.verify();
                        }
                        if (r.chance(5)) {
                            twoIterators(m);
                        }
                    }

                    @Override
                    void verify() throws Throwable {
                        m.verify();
                    }

                    @Override
                    void query() throws Throwable {
                        m.touch(r.nextInt(m.lists));
                        m.checkList(r.nextInt(m.lists), r.nextBoolean());
                    }

                    @Override
                    Actor view(final Case d) {
                        final SeqChecks.HydraMachine w = m.view(d);
                        return reader(w::verify, () -> {
                            w.touch(d.r.nextInt(w.lists));
                            w.checkList(d.r.nextInt(w.lists), d.r.nextBoolean());
                        });
                    }
                };
            }
            case 5: {
                final SeqChecks.VectorMachine m = SeqChecks.VectorMachine.random(c, v);
                return new Actor() {
                    @Override
                    void step() throws Throwable {
                        if (m.model.size() > 60 || r.chance(40)) {
                            m.clear();
                        } else if (r.chance(10)) {
                            m.ensure(r.nextInt(80));
                        } else {
                            m.append(m.value());
                        }
                    }

                    @Override
                    void verify() throws Throwable {
                        m.verify();
                    }

                    @Override
                    void query() throws Throwable {
                        m.touch();
                    }

                    @Override
                    Actor view(final Case d) {
                        final SeqChecks.VectorMachine w = m.view(d);
                        return reader(w::verify, w::touch);
                    }
                };
            }
            case 6: {
                final SeqChecks.StoreMachine m = new SeqChecks.StoreMachine(c, v, r.nextBoolean());
                return new Actor() {
                    @Override
                    void step() throws Throwable {
                        m.set(r.nextInt(Math.min(m.span, 100)), m.fields == 0 ? 0 : r.nextInt(m.fields));
                    }

                    @Override
                    void verify() throws Throwable {
                        m.verify();
                    }

                    @Override
                    Actor view(final Case d) {
                        final SeqChecks.StoreMachine w = m.view(d);
                        return reader(w::verify, () -> w.check(d.r.nextInt(w.span),
                                w.fields == 0 ? 0 : d.r.nextInt(w.fields)));
                    }
                };
            }
            case 7: {
                final BiMachine m = new BiMachine(c, BiMachine.ALL);
                return new Actor() {
                    @Override
                    void step() throws Throwable {
                        m.step();
                        if (m.pairs.size() < 20 && r.chance(30)) {
                            m.verify();
                        }
                    }

                    @Override
                    void verify() throws Throwable {
                        m.verify();
                    }

                    @Override
                    Actor view(final Case d) {
                        final BiMachine w = m.view(d);
                        return reader(w::verify, () -> w.touch(w.leftKey(d.r.nextInt(w.lefts)),
                                w.rightKey(d.r.nextInt(w.rights))));
                    }
                };
            }
            case 8:
                return new Actor() {
                    @Override
                    void step() throws Throwable {
                        sortOnce(c, k, v);
                    }

                    @Override
                    void verify() throws Throwable {
                        sortOnce(c, k, v);
                    }
                };
            default:
                return new Actor() {
                    @Override
                    void step() throws Throwable {
                        SortChecks.arrays(c);
                    }

                    @Override
                    void verify() throws Throwable {
                        SortChecks.arrays(c);
                    }
                };
        }
    }

    private interface Act {
        void run() throws Throwable;
    }

    private static Actor reader(final Act verify, final Act query) {
        return new Actor() {
            @Override
            void step() {
                throw new IllegalStateException();
            }

            @Override
            void verify() throws Throwable {
                verify.run();
            }

            @Override
            void query() throws Throwable {
                query.run();
            }
        };
    }

    private static final class HashActor extends Actor {
        final HashMachine m;

        HashActor(final HashMachine m) {
            this.m = m;
        }

        @Override
        void step() throws Throwable {
            HashChecks.step(m, null, HashChecks.pick(m.c.r, HashChecks.BASE));
            if (m.c.r.chance(15)) {
                twoIterators(m);
            }
            if (m.c.r.chance(10)) {
                m.traverse(m.c.r.nextInt(4));
            }
        }

        @Override
        void verify() throws Throwable {
            m.verify();
        }

        @Override
        void query() throws Throwable {
            m.checkKey(m.randomKey());
            m.checkKey(m.randomKey());
            final int e = m.randomLive();
            if (e >= 0) {
                m.checkKey(m.keyAt[e]);
            }
            if (m.c.r.chance(4)) {
                int n = 0;
                for (Object it = m.lib.iterator(m.o, null); Lib.EntryIt.next(it); ) {
                    n++;
                }
                m.c.eq(m.liveCount, n, "elements delivered by an inner traversal");
            }
        }

        @Override
        Actor view(final Case d) {
            final HashMachine w = m.view(d);
            final HashActor a = new HashActor(w);
            return reader(w::verify, a::query);
        }
    }

    private static final class HeapActor extends Actor {
        final HeapMachine m;

        HeapActor(final HeapMachine m) {
            this.m = m;
        }

        @Override
        void step() throws Throwable {
            HeapChecks.step(m, HashChecks.pick(m.c.r, HeapChecks.BASE));
        }

        @Override
        void verify() throws Throwable {
            m.verify();
        }

        @Override
        void query() throws Throwable {
            m.touch(m.randomLive());
        }

        @Override
        Actor view(final Case d) {
            final HeapMachine w = m.view(d);
            return reader(w::verify, () -> {
                w.touch(w.randomLive());
                if (d.r.chance(10)) {
                    w.verify();
                }
            });
        }
    }

    /** Two open iterators of one set or map, advanced in turns. */
    static void twoIterators(final HashMachine m) throws Throwable {
        final Case c = m.c;
        final Object[] its = {m.lib.iterator(m.o, null), m.lib.iterator(m.o, null)};
        final boolean[][] seen = {new boolean[m.used], new boolean[m.used]};
        final int[] n = new int[2];
        final boolean[] done = new boolean[2];
        while (!done[0] || !done[1]) {
            final int i = done[0] ? 1 : done[1] ? 0 : c.r.nextInt(2);
            if (!Lib.EntryIt.next(its[i])) {
                done[i] = true;
                continue;
            }
            final int e = Lib.EntryIt.current(its[i]);
            c.check(e >= 0 && e < m.used && m.state[e] == HashMachine.LIVE, "iterator " + i
                    + " of two delivers entry " + e + " which holds no key");
            c.check(!seen[i][e], "iterator " + i + " of two delivers entry " + e + " twice");
            seen[i][e] = true;
            n[i]++;
        }
        c.eq(m.liveCount, n[0], "elements delivered by the first of two iterators");
        c.eq(m.liveCount, n[1], "elements delivered by the second of two iterators");
        c.count("simultaneous iterators");
    }

    /** Two open iterators of one hydra deque (any lists and directions), advanced in turns. */
    static void twoIterators(final SeqChecks.HydraMachine m) throws Throwable {
        final Case c = m.c;
        final Object[] its = new Object[2];
        final List<Iterator<Object[]>> want = new ArrayList<>();
        final int[] ids = new int[2];
        for (int i = 0; i < 2; i++) {
            ids[i] = c.r.nextInt(m.lists);
            if (c.r.nextBoolean()) {
                its[i] = (Object) m.lib.iterator.invokeExact(m.o, (Object) ids[i]);
                want.add(m.list(ids[i]).iterator());
            } else {
                its[i] = (Object) m.lib.reverse.invokeExact(m.o, (Object) ids[i]);
                want.add(m.list(ids[i]).descendingIterator());
            }
        }
        final Lib.It h = Lib.It.of(m.lib.t);
        final boolean[] done = new boolean[2];
        while (!done[0] || !done[1]) {
            final int i = done[0] ? 1 : done[1] ? 0 : c.r.nextInt(2);
            final boolean more = want.get(i).hasNext();
            c.check(h.hasNext(its[i]) == more, "iterator " + i + " of two over list " + ids[i]
                    + (more ? " ends early" : " does not end"));
            if (more) {
                c.eq(want.get(i).next()[0], h.next(its[i]), "element of iterator " + i + " of two");
            } else {
                done[i] = true;
            }
        }
        c.count("simultaneous iterators");
    }

    static void sortOnce(final Case c, final T k, final T v) throws Throwable {
        final Rng r = c.r;
        final SortChecks.SortLib lib = SortChecks.SortLib.of(k, v);
        final int len = r.pickInt(r.nextInt(10), r.nextInt(60), r.nextInt(60), r.nextInt(200));
        final int off = r.nextInt(4);
        final StringBuilder name = new StringBuilder();
        final Object pri = SortChecks.keys(k, off + len + 2, r, name);
        final Object sec = v.newArray(off + len + 2);
        for (int i = 0; i < Array.getLength(sec); i++) {
            Array.set(sec, i, v.tag(i));
        }
        final SortChecks.Order q;
        if (r.nextBoolean()) {
            q = SortChecks.order(k, r);
        } else {
            final java.util.Comparator<Object> o = k.asc();
            q = new SortChecks.Order("custom", Lib.cmp(k, o), o);
        }
        final Object pri0 = SortChecks.clone(pri);
        final Object sec0 = SortChecks.clone(sec);
        c.op("sort " + q.name(), off, len);
        lib.sort(pri, sec, off, len, q.lib());
        SortChecks.conserved(c, pri0, sec0, pri, sec, off, len);
        SortChecks.ordered(c, pri, off, len, q);
        c.count("sorts");
    }

    private static int c28(final Ctx x) throws Throwable {
        Lib.loader = new Yields(Lib.P + "hash.", Lib.P + "heap.", Lib.P + "queue.", Lib.P + "store.",
                Lib.P + "vector.", Lib.P + "sort.", Lib.P + "arrays.");
        Lib.hooks = true;
        x.rule = "A case is a group of instances (sets, maps, heaps, deques, hydra deques, vectors, stores,"
                + " bidirectional collections, sorts, arrays), each with its own reference model, used"
                + " in turns, from inside one another's callbacks, on different threads at once, or one"
                + " instance read by several threads; with scheduling points injected before every field"
                + " and array access and call in the threaded families; non-trivial if at least 2"
                + " instances (or 2 readers of at least 2 elements) were at work.";
        x.assume("the Mapping of a bidirectional collection and an iterator are used by one traversal at a"
                + " time");
        Yields.rate = 0;
        x.parallel("interleaved", x.n(1200, 25000), c -> {
            final Rng r = c.r;
            final int n = 2 + r.nextInt(5);
            final Actor[] a = group(c, n);
            final int steps = 60 + r.nextInt(200);
            for (int i = 0; i < steps; i++) {
                a[r.nextInt(n)].step();
                if (r.chance(40)) {
                    a[r.nextInt(n)].verify();
                }
            }
            for (Actor o : a) {
                o.verify();
            }
            c.nontrivial = true;
            c.count("groups in turns");
        });
        x.parallel("nested", x.n(2500, 50000), c -> {
            final Rng r = c.r;
            final int n = 2 + r.nextInt(4);
            final Actor[] a = group(c, n);
            final int[] depth = {0};
            final int[] budget = {0};
            final ArrayDeque<Actor> stack = new ArrayDeque<>();
            Lib.HOOK.set(consumer -> {
                if (budget[0] <= 0 || depth[0] >= 3 || !r.chance(4)) {
                    return;
                }
                budget[0]--;
                depth[0]++;
                try {
                    final Actor top = stack.peek();
                    if (consumer && r.chance(3)) {
                        top.query();
                        c.count("queries inside the own traversal");
                    } else {
                        final Actor o = a[r.nextInt(n)];
                        if (!o.busy) {
                            o.busy = true;
                            stack.push(o);
                            try {
                                if (r.chance(5)) {
                                    o.verify();
                                } else {
                                    o.step();
                                }
                            } finally {
                                stack.pop();
                                o.busy = false;
                            }
                            c.count(consumer ? "steps inside consumers"
                                    : "steps inside comparators and functions");
                        }
                    }
                } catch (RuntimeException | Error e) {
                    throw e;
                } catch (Throwable t) {
                    throw new IllegalStateException(t);
                } finally {
                    depth[0]--;
                }
            });
            try {
                final int steps = 40 + r.nextInt(100);
                for (int i = 0; i < steps; i++) {
                    final Actor o = a[r.nextInt(n)];
                    o.busy = true;
                    stack.push(o);
                    budget[0] = 12;
                    if (r.chance(8)) {
                        o.verify();
                    } else {
                        o.step();
                    }
                    stack.pop();
                    o.busy = false;
                }
                budget[0] = 0;
                for (Actor o : a) {
                    o.verify();
                }
            } finally {
                Lib.HOOK.remove();
            }
            c.nontrivial = true;
            c.count("nested groups");
        });
        Yields.rate = 3;
        x.serial("threads", x.n(200, 2500), c -> {
            final int kind = c.index % KINDS;
            final int same = c.r.nextInt(3); // of one class, of one kind, or any
            final T k = T.KEYS[c.index / KINDS % 9];
            final T v = T.ALL[c.index / KINDS % 10];
            c.config("threads", "kind=" + kind, same == 0 ? k + "/" + v : "");
            x.threads(c, 6, d -> {
                final Actor a = actor(d, same == 2 ? d.r.nextInt(KINDS) : kind,
                        same == 0 ? k : d.r.pick(T.KEYS), same == 0 ? v : d.r.pick(T.ALL));
                for (int i = 0; i < 60; i++) {
                    a.step();
                    if (d.r.chance(40)) {
                        a.verify();
                    }
                }
                a.verify();
                d.nontrivial = true;
            });
            c.count("instances on threads", 6);
        });
        x.serial("readers", x.n(200, 2500), c -> {
            final int kind = c.index % 8;
            final T k = T.KEYS[c.index / 8 % 9];
            final T v = T.ALL[c.index / 8 % 10];
            final Rng r = c.r;
            Yields.rate = 0;
            final Actor a = actor(c, kind, k, v);
            final int n = 20 + r.nextInt(150);
            for (int i = 0; i < n; i++) {
                a.step();
            }
            a.verify();
            Yields.rate = 6;
            x.threads(c, 5, d -> {
                final Actor w = a.view(d);
                w.verify();
                for (int i = 0; i < 60; i++) {
                    w.query();
                }
                w.verify();
                d.nontrivial = true;
            });
            Yields.rate = 0;
            a.verify();
            for (int i = 0; i < 30; i++) { // and goes on as if nobody had read
                a.step();
            }
            a.verify();
            Yields.rate = 3;
            c.count("collections read by 5 threads");
        });
        Yields.rate = 4;
        Functions.family(x);
        x.count("injected delays", Yields.POINTS.sum());
        return x.finish("groups in turns", "nested groups", "queries inside the own traversal",
                "steps inside consumers", "steps inside comparators and functions",
                "simultaneous iterators", "instances on threads", "collections read by 5 threads",
                "injected delays", "sorts", "functions on threads");
    }

    /** Instances of one class, of one kind, or of any. */
    static Actor[] group(final Case c, final int n) throws Throwable {
        final Rng r = c.r;
        final int kind = c.index % KINDS;
        final T k = T.KEYS[c.index / KINDS % 9];
        final T v = T.ALL[c.index / KINDS % 10];
        final int same = r.nextInt(3);
        final Actor[] a = new Actor[n];
        for (int i = 0; i < n; i++) {
            a[i] = actor(c, i > 0 && same == 2 ? r.nextInt(KINDS) : kind,
                    i > 0 && same > 0 ? r.pick(T.KEYS) : k, i > 0 && same > 0 ? r.pick(T.ALL) : v);
        }
        c.config("kind=" + kind, n + " instances");
        return a;
    }

    // ------------------------------------------------------------------ C30

    private static int c30(final Ctx x) throws Throwable {
        return Limits.run(x);
    }
}
