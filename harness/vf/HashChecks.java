package vf;

import java.util.ArrayList;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.function.Function;

/** C01-C07 and the hash parts of C31 and C32. */
final class HashChecks {
    private HashChecks() {}

    static final int ADD = 0, PUT = 1, PUTAT = 2, REMRND = 3, REMLIVE = 4, REMAT = 5, RESERVE = 6,
            FREE = 7, INACTIVE = 8, CLEAR = 9, COPY = 10, TRAV = 11, TRAVREM = 12, FAILFAST = 13,
            VERIFY = 14, OPS = 15;

    static int[] weights(final int... pairs) {
        final int[] w = new int[OPS];
        for (int i = 0; i < pairs.length; i += 2) {
            w[pairs[i]] = pairs[i + 1];
        }
        return w;
    }

    // per mille
    static final int[] BASE = weights(ADD, 200, PUT, 250, PUTAT, 60, REMRND, 100, REMLIVE, 160,
            REMAT, 80, RESERVE, 20, FREE, 16, INACTIVE, 5, CLEAR, 3, TRAV, 6, TRAVREM, 4,
            FAILFAST, 2, VERIFY, 5, COPY, 1);
    static final int[] GROW = weights(ADD, 400, PUT, 500, PUTAT, 40, REMLIVE, 40, RESERVE, 5,
            FREE, 4, TRAV, 2, VERIFY, 2);
    static final int[] CHURN = weights(ADD, 200, PUT, 250, REMRND, 150, REMLIVE, 200, REMAT, 100,
            RESERVE, 30, FREE, 30, PUTAT, 20, TRAV, 2, TRAVREM, 1, VERIFY, 2);
    static final int[] DRAIN = weights(ADD, 40, PUT, 50, REMRND, 200, REMLIVE, 450, REMAT, 200,
            RESERVE, 25, FREE, 25, TRAV, 3, TRAVREM, 3, VERIFY, 3);
    static final int[] ITER = weights(ADD, 250, PUT, 250, REMLIVE, 60, REMAT, 20, RESERVE, 3,
            FREE, 3, TRAV, 60, TRAVREM, 60, FAILFAST, 60, CLEAR, 5, COPY, 4, VERIFY, 3);
    static final int[] RESV = weights(ADD, 200, PUT, 300, PUTAT, 20, REMRND, 30, REMLIVE, 60,
            REMAT, 100, RESERVE, 160, FREE, 110, INACTIVE, 60, CLEAR, 4, TRAV, 4, TRAVREM, 4,
            VERIFY, 5);

    static int pick(final Rng r, final int[] w) {
        int sum = 0;
        for (int x : w) {
            sum += x;
        }
        int n = r.nextInt(sum);
        for (int i = 0;; i++) {
            n -= w[i];
            if (n < 0) {
                return i;
            }
        }
    }

    static void step(final HashMachine m, final HashMachine other, final int op) throws Throwable {
        final Rng r = m.c.r;
        switch (op) {
            case ADD:
                m.add(m.randomKey());
                break;
            case PUT:
                m.put(m.randomKey(), m.isMap() ? m.lib.v.gen(r) : null);
                break;
            case PUTAT:
                m.putValueAt();
                break;
            case REMRND:
                m.remove(m.randomKey());
                break;
            case REMLIVE:
                m.removeLive();
                break;
            case REMAT:
                m.removeAtLive();
                break;
            case RESERVE:
                if (m.reservedCount < m.keySpace / 2 + 2) {
                    m.reserveLive();
                }
                break;
            case FREE:
                m.freeReserved();
                break;
            case INACTIVE:
                m.removeInactive();
                break;
            case CLEAR:
                m.clear();
                break;
            case COPY:
                if (other != null) {
                    m.copyFrom(other);
                    m.verify();
                }
                break;
            case TRAV:
                m.traverse(r.nextInt(4));
                break;
            case TRAVREM:
                m.traverseRemoving();
                break;
            case FAILFAST:
                m.failFast(other);
                break;
            default:
                m.verify();
        }
    }

    /** Phases of growth, churn, drain and mixture. */
    static void drive(final HashMachine m, final HashMachine other, final int total, final int[] main)
            throws Throwable {
        final Rng r = m.c.r;
        int done = 0;
        while (done < total) {
            final int n = Math.min(total - done, 1 + r.nextInt(2 * m.keySpace + 20));
            final int[] w = r.pick(main, main, GROW, CHURN, DRAIN, BASE);
            for (int i = 0; i < n; i++) {
                step(m, other, pick(r, w));
            }
            done += n;
            if (r.chance(3)) {
                m.verify();
            }
            if (r.chance(12)) {
                m.clear();
            }
        }
        m.verify();
    }

    /** Systematic choice of key and value type. */
    static HashLib lib(final int i) {
        return HashLib.of(T.KEYS[i % 9], (i / 9) % 11 == 0 ? null : T.ALL[(i / 9) % 11 - 1]);
    }

    static HashLib mapLib(final int i) {
        return HashLib.of(T.KEYS[i % 9], T.ALL[(i / 9) % 10]);
    }

    private static void finishCase(final HashMachine m) {
        final Case c = m.c;
        c.nontrivial = m.peak >= 2 && c.events >= 10;
        c.count("class " + (m.isMap() ? "map" : "set"));
        c.count("key " + m.lib.k.lib);
        if (m.isMap()) {
            c.count("value " + m.lib.v.lib);
        }
        if (m.lib.capacityNow(m.o) > m.capAtStart) {
            c.count("resized histories");
        }
    }

    static int ops(final Rng r, final int keySpace) {
        return r.pickInt(30, 100, 300, 300, 1000, Math.max(500, keySpace * 6));
    }

    private static void large(final Ctx x, final int flags, final int n) {
        x.parallel("large", n, c -> {
            final Rng r = c.r;
            final T k = r.pick(T.INT, T.LONG, T.DOUBLE, T.STRING, T.GENERIC, T.CHAR, T.FLOAT);
            final HashMachine m = new HashMachine(c, HashLib.of(k, r.pick(null, T.INT, T.STRING)), flags);
            m.keySpace = r.pickInt(20000, 50000, 50000, 150000);
            final T.Mode mode = r.pick(T.Mode.SEQ, T.Mode.RANDOM, T.Mode.NEG);
            final long salt = r.nextLong();
            m.keyGen = i -> k.key(i, mode, salt);
            final double lf = r.pick(0.75, 1.0, 0.3);
            final int cap = r.pickInt(1, 16, 1000);
            c.config(m.lib.name(), "cap=" + cap, "lf=" + lf, "keys=" + mode + "/" + m.keySpace);
            m.create(cap, lf);
            final int[][] phases = {GROW, CHURN, DRAIN, GROW, DRAIN, CHURN};
            for (int[] w : phases) {
                final int[] q = w.clone();
                q[VERIFY] = q[TRAV] = q[TRAVREM] = q[FAILFAST] = 0;
                for (int i = 0; i < m.keySpace; i++) {
                    step(m, null, pick(r, q));
                }
                m.verify();
                if (r.chance(5)) {
                    m.clear();
                }
            }
            m.traverseRemoving();
            finishCase(m);
        });
    }

    /** One over many keys, the functions custom or not. */
    private static final int[] WIDE = {0, 0, 5}; // hash functions that spread

    private static HashMachine sizable(final Case c, final boolean custom) throws Throwable {
        final Rng r = c.r;
        final T k = custom ? r.pick(T.FLOAT, T.DOUBLE, T.STRING, T.GENERIC)
                : r.pick(T.INT, T.LONG, T.DOUBLE, T.STRING, T.GENERIC, T.CHAR, T.FLOAT);
        final HashMachine m = new HashMachine(c, HashLib.of(k, r.pick(null, T.INT, T.STRING)),
                HashMachine.ALL);
        m.keySpace = r.pickInt(20000, 60000, 100000);
        final T.Mode mode = r.pick(T.Mode.SEQ, T.Mode.RANDOM, T.Mode.NEG);
        final long salt = r.nextLong();
        m.keyGen = i -> k.key(i, mode, salt);
        final double lf = r.pick(0.75, 1.0, 0.3);
        final int cap = r.pickInt(1, 16, 1000);
        c.config(m.lib.name(), "cap=" + cap, "lf=" + lf, "keys=" + mode + "/" + m.keySpace);
        m.create(cap, lf);
        if (custom) {
            custom(m, r.nextInt(CUSTOM_KINDS), WIDE[r.nextInt(WIDE.length)]);
        }
        return m;
    }

    static void fill(final HashMachine m, final int n) throws Throwable {
        some(m, n, GROW);
    }

    private static void thin(final HashMachine m, final int n) throws Throwable {
        some(m, n, DRAIN);
    }

    private static void some(final HashMachine m, final int n, final int[] w) throws Throwable {
        final int[] q = w.clone();
        q[VERIFY] = q[TRAV] = q[TRAVREM] = q[FAILFAST] = q[CLEAR] = 0;
        for (int i = 0; i < n; i++) {
            step(m, null, pick(m.c.r, q));
        }
    }

    private static final String HIST_RULE =
            "A case is one history of calls on one instance (class, capacity, load factor and key"
                    + " distribution drawn at random, classes cycled systematically), compared with a"
                    + " reference model after every call; non-trivial if it made at least 10 calls and"
                    + " held at least 2 elements at once; distinct by a hash of configuration and calls.";

    private static void base(final Ctx x, final int flags, final int[] mix, final boolean mapsOnly,
            final int quick, final int deep) {
        x.rule = HIST_RULE;
        x.assume("single-threaded use; keys are not NaN or negative zero unless custom functions are set");
        x.assume("hash and equality functions and hashCode/equals of keys are consistent");
        x.parallel("mixed", x.n(quick, deep), c -> {
            final HashLib lib = mapsOnly ? mapLib(c.index) : lib(c.index);
            final HashMachine m = HashMachine.random(c, lib, flags);
            HashMachine other = null;
            if (c.r.chance(3)) {
                other = HashMachine.randomLike(c, lib, flags, m);
                drive(other, null, 60, GROW);
            }
            drive(m, other, ops(c.r, m.keySpace), mix);
            finishCase(m);
        });
        x.parallel("tiny", x.n(quick * 2, deep * 2), c -> { // many short histories over few keys
            final HashLib lib = mapsOnly ? mapLib(c.index) : lib(c.index);
            final HashMachine m = HashMachine.random(c, lib, flags);
            m.keySpace = 1 + c.r.nextInt(5);
            final int n = 5 + c.r.nextInt(40);
            for (int i = 0; i < n; i++) {
                step(m, null, pick(c.r, mix));
                if (c.r.chance(4)) {
                    m.verify();
                }
            }
            m.verify();
            finishCase(m);
        });
        large(x, flags, x.n(8, 60));
        x.parallel("soak", x.n(16, 90), c -> { // one small collection for a very long time
            final HashLib lib = mapsOnly ? mapLib(c.r.nextInt(90)) : lib(c.r.nextInt(99));
            final HashMachine m = HashMachine.random(c, lib, flags);
            m.keySpace = 1 + c.r.nextInt(c.r.pickInt(3, 12, 40));
            final int n = c.r.pickInt(70_000, 140_000);
            for (int i = 0; i < n; i++) {
                step(m, null, pick(c.r, mix));
            }
            m.verify();
            finishCase(m);
            c.count("soaked collections");
        });
    }

    /** Whole powers of two of changes between creating an iterator and using it, and copies of twins. */
    private static void manyChanges(final Ctx x) {
        x.parallel("many changes", x.n(200, 2000), c -> {
            final Rng r = c.r;
            final HashLib lib = lib(c.index);
            final HashMachine m = HashMachine.random(c, lib, HashMachine.ITER);
            m.keySpace = 4 + r.nextInt(30);
            final HashMachine twin = HashMachine.randomLike(c, lib, HashMachine.ITER, m);
            final int n = r.range(3, m.keySpace * 4);
            for (int i = 0; i < n; i++) {
                final Object k = m.randomKey();
                m.put(k, m.isMap() ? lib.v.gen(r) : null);
                twin.put(k, m.isMap() ? lib.v.gen(r) : null);
            }
            final int kind = r.nextInt(3);
            final int times = 1 << r.nextInt(c.index % 10 == 0 ? 18 : 10);
            m.expectFailFast("kind " + kind + " x " + times, () -> {
                switch (kind) {
                    case 0:
                        for (int i = 0; i < times; i++) {
                            m.clear();
                        }
                        break;
                    case 1: {
                        final Object k = m.randomKey();
                        m.remove(k);
                        for (int i = 0; i < times; i++) {
                            m.put(k, m.isMap() ? lib.v.gen(r) : null);
                            m.remove(k);
                        }
                        break;
                    }
                    default:
                        m.copyFrom(twin);
                        break;
                }
            });
            c.nontrivial = true;
            c.count(kind == 2 ? "twins copied under an iterator" : "many changes under an iterator");
        });
    }

    static void register() {
        Main.CHECKS.put("C01", x -> {
            base(x, HashMachine.MEMBER, BASE, false, 3000, 90000);
            Vast.hash(x);
            return x.finish("clear", "entry reused", "resized histories", "traversals", "vast collections");
        });
        Main.CHECKS.put("C02", x -> {
            base(x, HashMachine.ENTRY, BASE, false, 3000, 90000);
            Vast.hash(x);
            return x.finish("clear", "entry reused", "resized histories", "freed reserved",
                    "vast collections");
        });
        Main.CHECKS.put("C03", x -> {
            base(x, HashMachine.VALUE, BASE, true, 3000, 90000);
            Vast.hash(x);
            return x.finish("clear", "entry reused", "resized histories", "vast collections");
        });
        Main.CHECKS.put("C04", x -> {
            base(x, HashMachine.ITER, ITER, false, 3000, 90000);
            manyChanges(x);
            Vast.traverse(x);
            return x.finish("vast collections", "absent keys removed while traversing",
                    "calls changing nothing while traversing", "removed while traversing", "fail-fast next", "fail-fast remove",
                    "removal through another iterator",
                    "second remove refused", "iterator reused", "twins copied under an iterator",
                    "many changes under an iterator");
        });
        Main.CHECKS.put("C05", x -> {
            base(x, HashMachine.RESERVE | HashMachine.MEMBER, RESV, false, 3000, 90000);
            BiChecks.reserve(x);
            return x.finish("reserved", "freed reserved", "by-entry removal of unused",
                    "by-entry removal of free", "by-entry removal of reserved");
        });
        Main.CHECKS.put("C06", HashChecks::c06);
        Main.CHECKS.put("C07", HashChecks::c07);
    }

    // ---- copyFrom

    private static int c06(final Ctx x) throws Throwable {
        x.rule = "A case is a pair of instances of one class with independent configurations and"
                + " histories, joined by copyFrom (repeatedly, in both directions) and continued"
                + " independently, each compared with its own reference model; non-trivial if the"
                + " copied source had at least 2 elements.";
        x.assume("source and target are different instances of the same class, used by one thread");
        x.parallel("pairs", x.n(1500, 60000), c -> {
            final HashLib lib = lib(c.index);
            final Rng r = c.r;
            final HashMachine a = HashMachine.random(c, lib, HashMachine.ALL);
            final HashMachine b = HashMachine.randomLike(c, lib, HashMachine.ALL, a);
            if (lib.customizable() && r.chance(3)) {
                custom(a, r.nextInt(CUSTOM_KINDS));
            }
            if (lib.customizable() && r.chance(3)) {
                custom(b, r.nextInt(CUSTOM_KINDS));
            }
            final int rounds = 1 + r.nextInt(4);
            for (int i = 0; i < rounds; i++) {
                drive(a, null, r.nextInt(2 * a.keySpace + 30), r.pick(BASE, GROW, RESV));
                drive(b, null, r.nextInt(2 * b.keySpace + 30), r.pick(BASE, GROW, RESV));
                final HashMachine s = r.nextBoolean() ? a : b;
                final HashMachine t = s == a ? b : a;
                if (s.liveCount >= 2) {
                    c.nontrivial = true;
                }
                c.count(lib.capacity(t.o) < lib.capacity(s.o) ? "copied to a smaller target"
                        : lib.capacity(t.o) > lib.capacity(s.o) ? "copied to a larger target"
                        : "copied to an equal target");
                if (s.reservedCount > 0) {
                    c.count("copied with reserved entries");
                }
                if (s.freeCount > 0) {
                    c.count("copied with released entries");
                }
                t.copyFrom(s);
                t.verify();
                s.verify();
                if (s.canonCustom || t.canonCustom) {
                    c.count("copied with custom functions");
                }
                // same released entries: a twin continuation hands out the same ones
                final int n = r.nextInt(2 * s.keySpace + 10);
                if (r.nextBoolean()) {
                    for (int j = 0; j < n; j++) {
                        final Object k = s.randomKey();
                        if (r.nextInt(3) > 0) {
                            s.add(k);
                            t.add(k);
                            c.eq(lib.lookup(s.o, k), lib.lookup(t.o, k), "entry of " + T.show(k)
                                    + " added to source and copy");
                        } else {
                            s.remove(k);
                            t.remove(k);
                        }
                    }
                } else {
                    for (int j = 0; j < n; j++) {
                        step(r.nextBoolean() ? s : t, null, pick(r, r.pick(BASE, CHURN, RESV)));
                    }
                }
                a.verify();
                b.verify();
            }
        });
        x.parallel("large", x.n(8, 60), c -> {
            final HashMachine a = sizable(c, false);
            final HashMachine b = HashMachine.randomLike(c, a.lib, HashMachine.ALL, a);
            fill(b, c.r.pickInt(0, 100, a.keySpace));
            for (int i = 0; i < 2; i++) {
                fill(a, a.keySpace / 2);
                final boolean back = i > 0 && c.r.nextBoolean();
                (back ? a : b).copyFrom(back ? b : a);
                a.verify();
                b.verify();
                fill(b, a.keySpace / 2);
                thin(b, a.keySpace / 2);
                thin(a, a.keySpace / 2);
            }
            a.verify();
            b.verify();
            finishCase(a);
        });
        Vast.hash(x);
        return x.finish("vast collections", "copied to a smaller target", "copied to a larger target",
                "copied with reserved entries", "copied with released entries",
                "copied with custom functions", "clear");
    }

    // ---- custom functions

    static final int CUSTOM_KINDS = 6;

    static Function<Object, Object> canon(final T t, final int kind) {
        switch (t) {
            case FLOAT:
            case DOUBLE:
                switch (kind) {
                    case 0: // bits: tells signed zeros apart, NaN equals NaN
                        return k -> Double.doubleToLongBits(((Number) k).doubleValue());
                    case 1:
                        return k -> Math.floor(((Number) k).doubleValue()) + 0.0;
                    case 2:
                        return k -> Math.abs(((Number) k).doubleValue());
                    case 3:
                        return k -> (long) (((Number) k).doubleValue() % 16);
                    case 4:
                        return k -> Math.signum(((Number) k).doubleValue()) + 0.0;
                    default:
                        return k -> (int) ((Number) k).doubleValue();
                }
            default:
                switch (kind) {
                    case 0:
                        return k -> k == null ? "null" : k.toString().toLowerCase(java.util.Locale.ROOT);
                    case 1:
                        return k -> k == null ? -1 : k.toString().length();
                    case 2:
                        return k -> k == null || k.toString().isEmpty() ? ' ' : k.toString().charAt(0);
                    case 3:
                        return k -> k == null ? 0 : k.toString().hashCode() & 31;
                    case 4:
                        return k -> "all the same";
                    default:
                        return k -> "x" + k;
                }
        }
    }

    static int spread(final Object canon, final int kind) {
        final int h = canon.hashCode() * 31 + 17;
        switch (kind) {
            case 0:
                return h;
            case 1:
                return 0;
            case 2:
                return -1;
            case 3:
                return Integer.MIN_VALUE;
            case 4:
                return h & 3;
            case 5:
                return h | Integer.MIN_VALUE;
            case 6:
                return h << 16;
            default:
                return Integer.MIN_VALUE | h & 7;
        }
    }

    static void custom(final HashMachine m, final int kind) throws Throwable {
        custom(m, kind, m.c.r.nextInt(8));
    }

    static void custom(final HashMachine m, final int kind, final int hk) throws Throwable {
        final Function<Object, Object> f = canon(m.lib.k, kind);
        m.hashFn = Lib.hash(m.lib.k, k -> spread(f.apply(k), hk));
        m.eqFn = Lib.eq(m.lib.k, (p, q) -> f.apply(p).equals(f.apply(q)));
        m.c.op("setHashMethod/setEqMethod", kind, hk);
        if (m.c.r.nextBoolean()) {
            m.lib.setHash(m.o, m.hashFn);
            m.lib.setEq(m.o, m.eqFn);
        } else {
            m.lib.setEq(m.o, m.eqFn);
            m.lib.setHash(m.o, m.hashFn);
        }
        m.canon = f;
        m.canonCustom = true;
        m.c.count("functions set");
    }

    private static Function<Integer, Object> anyKeys(final T t, final int n, final long salt) {
        final Object[] pool = new Object[n + n / 2 + 20];
        final Rng r = new Rng(salt);
        for (int i = 0; i < pool.length; i++) {
            pool[i] = t.gen(r);
        }
        return i -> {
            final Object o = pool[i % pool.length];
            return o instanceof String s ? new String(s) : o;
        };
    }

    private static int c07(final Ctx x) throws Throwable {
        x.rule = "A case is one history on a float, double, String or generic keyed set or map with"
                + " one of 6 equality functions and one of 8 consistent hash functions per type (NaN,"
                + " signed zeros and null among the keys), replaced while empty, with refused"
                + " replacements in between; non-trivial if at least 2 keys were held at once.";
        x.assume("hash and equality functions are consistent with each other and do not throw");
        x.parallel("custom", x.n(5000, 90000), c -> {
            final T k = T.KEYS[5 + c.index % 4];
            final int vi = c.index / 4 % 11;
            final HashLib lib = HashLib.of(k, vi == 0 ? null : T.ALL[vi - 1]);
            final Rng r = c.r;
            final HashMachine m = HashMachine.random(c, lib, HashMachine.ALL);
            final boolean onlyRefuse = r.chance(10);
            if (!onlyRefuse) {
                custom(m, r.nextInt(CUSTOM_KINDS));
                m.keyGen = anyKeys(k, m.keySpace, r.nextLong());
            }
            final int rounds = 1 + r.nextInt(5);
            for (int i = 0; i < rounds; i++) {
                drive(m, null, ops(r, m.keySpace) / 3 + 5, BASE);
                if (m.liveCount > 0) {
                    refuse(m);
                    drive(m, null, 20, CHURN);
                }
                if (r.nextBoolean()) {
                    if (r.nextBoolean()) {
                        m.clear();
                    } else {
                        while (m.liveCount > 0) {
                            m.removeLive();
                        }
                    }
                    if (!onlyRefuse) {
                        custom(m, r.nextInt(CUSTOM_KINDS));
                        c.count("functions replaced while empty");
                    }
                }
            }
            finishCase(m);
        });
        x.parallel("large", x.n(8, 60), c -> {
            final HashMachine m = sizable(c, true);
            for (int i = 0; i < 2; i++) {
                fill(m, m.keySpace);
                m.verify();
                refuse(m);
                thin(m, m.keySpace);
                m.verify();
            }
            m.traverseRemoving();
            finishCase(m);
        });
        return x.finish("functions set", "functions replaced while empty", "replacement refused");
    }

    static void refuse(final HashMachine m) throws Throwable {
        final Object h = Lib.hash(m.lib.k, k -> 12345);
        final Object q = Lib.eq(m.lib.k, (a, b) -> false);
        final boolean which = m.c.r.nextBoolean();
        m.c.op("set function while not empty", which);
        boolean thrown = false;
        try {
            if (which) {
                m.lib.setHash(m.o, h);
            } else {
                m.lib.setEq(m.o, q);
            }
        } catch (RuntimeException e) {
            thrown = true;
        }
        m.c.check(thrown, "function replaced although the collection holds " + m.liveCount + " keys");
        m.c.count("replacement refused");
        m.verify();
    }

    // ---- C31: cleared against fresh

    static void clearedHash(final Ctx x) {
        x.parallel("hash", x.n(2500, 40000), c -> {
            final HashLib lib = lib(c.index);
            final Rng r = c.r;
            final HashMachine a = HashMachine.random(c, lib, HashMachine.ALL);
            final boolean cust = lib.customizable() && r.chance(3);
            final int ck = r.nextInt(CUSTOM_KINDS);
            final int hk = r.nextInt(8);
            if (cust) {
                custom(a, ck, hk);
            }
            if (c.index % 400 == 399) {
                a.keySpace = r.pickInt(20_000, 60_000);
                final T.Mode mode = r.pick(T.Mode.SEQ, T.Mode.RANDOM, T.Mode.NEG);
                final long salt = r.nextLong();
                a.keyGen = i -> lib.k.key(i, mode, salt);
                if (cust && (hk != 0 && hk != 5)) {
                    a.keySpace = 2000;
                }
                fill(a, a.keySpace);
                thin(a, r.nextInt(a.keySpace));
            } else {
                drive(a, null, r.nextInt(3 * a.keySpace + 30), r.pick(BASE, GROW, RESV));
            }
            if (r.nextInt(3) == 0) { // copied into from another one, then changed further or not
                final HashMachine s = HashMachine.randomLike(c, lib, HashMachine.ALL, a);
                if (cust) {
                    custom(s, ck, hk);
                }
                final int n = a.keySpace < 5000 ? a.keySpace : 5000;
                drive(s, null, r.nextInt(3 * n + 30), r.pick(BASE, GROW, RESV));
                a.copyFrom(s);
                if (r.nextBoolean()) {
                    drive(a, null, r.nextInt(n + 30), r.pick(BASE, GROW, RESV));
                }
                c.count("cleared after a copy");
            }
            switch (r.nextInt(4)) {
                case 0: // only reserved entries left
                    while (a.liveCount > 0) {
                        a.reserveLive();
                    }
                    break;
                case 1: // emptied
                    while (a.liveCount > 0) {
                        a.removeLive();
                    }
                    break;
                default:
            }
            if (a.reservedCount > 0) {
                c.count("cleared with reserved entries");
            }
            if (a.liveCount > 1) {
                c.nontrivial = true;
            }
            final Object it = lib.iterator(a.o, null); // a live iterator across the clear
            if (a.liveCount > 0) {
                Lib.EntryIt.next(it);
            }
            a.clear();
            boolean thrown = false;
            try {
                Lib.EntryIt.next(it);
            } catch (java.util.ConcurrentModificationException e) {
                thrown = true;
            }
            c.check(thrown, "an iterator opened before clear goes on after it");
            a.verify();
            final HashMachine b = new HashMachine(c, lib, HashMachine.ALL);
            b.keySpace = a.keySpace;
            b.keyGen = a.keyGen;
            b.create(a.cap, a.lf);
            if (cust) {
                custom(b, ck, hk);
            }
            for (int e = 0; e < Math.min(lib.capacity(a.o), lib.capacity(b.o)); e++) {
                c.eq(lib.keyAt(b.o, e), lib.keyAt(a.o, e), "getKeyAt of unused entry " + e);
                if (a.isMap()) {
                    c.eq(lib.valueAt(b.o, e), lib.valueAt(a.o, e), "getValueAt of unused entry " + e);
                }
            }
            Lib.EntryIt.reset(it);
            c.check(!Lib.EntryIt.next(it), "cleared collection iterates");
            twins(a, b, r.nextInt((a.keySpace < 5000 ? 3 : 1) * a.keySpace + 30));
            c.count("hash twins");
        });
    }

    /** The same calls on both must give the same answers. */
    private static void twins(final HashMachine a, final HashMachine b, final int n) throws Throwable {
        final Case c = a.c;
        final Rng r = c.r;
        final HashLib lib = a.lib;
        for (int i = 0; i < n; i++) {
            final int kind = r.nextInt(100);
            if (kind < 55) {
                final Object k = a.randomKey();
                if (r.nextBoolean()) {
                    a.add(k);
                    b.add(k);
                } else {
                    final Object v = a.isMap() ? lib.v.gen(r) : null;
                    a.put(k, v);
                    b.put(k, v);
                }
                c.eq(lib.lookup(b.o, k), lib.lookup(a.o, k), "entry given to " + T.show(k)
                        + " in the cleared and (expected) the new instance");
            } else if (kind < 75) {
                final Object k = a.randomKey();
                a.remove(k);
                b.remove(k);
            } else if (kind < 85) {
                final int e = a.randomLive();
                if (e >= 0) {
                    final Object k = a.keyAt[e];
                    final int reserve = r.nextInt(4);
                    c.op(reserve == 0 ? "removeAtAndReserve" : "removeAt", e);
                    a.byEntry(e, reserve == 0);
                    b.byEntry(e, reserve == 0);
                    a.checkKey(k);
                    b.checkKey(k);
                }
            } else if (kind < 88) {
                final int e = a.randomInState(HashMachine.RESERVED);
                if (e >= 0) {
                    a.freeEntry(e);
                    b.freeEntry(e);
                }
            } else if (kind < 98) {
                a.checkKey(a.randomKey());
                b.checkKey(a.randomKey());
            } else if (a.liveCount < 2000 || r.nextInt(a.liveCount / 20) == 0) {
                a.verify();
                b.verify();
            }
        }
        a.verify();
        b.verify();
    }

    // ---- C32: failing calls

    static final class Boom extends RuntimeException {
        private static final long serialVersionUID = 1;

        Boom() {
            super("boom", null, false, true);
        }
    }

    private interface Call {
        void run() throws Throwable;
    }

    /** Runs a call which must throw; true if it did. */
    private static boolean throwsIt(final Call call) throws Throwable {
        try {
            call.run();
            return false;
        } catch (Violation v) {
            throw v;
        } catch (RuntimeException e) {
            return true;
        }
    }

    static void failingHash(final Ctx x) {
        x.parallel("hash", x.n(2500, 40000), c -> {
            final HashLib lib = lib(c.index);
            final Rng r = c.r;
            final HashMachine m = HashMachine.random(c, lib, HashMachine.ALL);
            final boolean[] armed = {false, false};
            if (lib.customizable()) { // default identity but refusing an armed probe
                final T k = lib.k;
                final Object h = Lib.hash(k, key -> {
                    if (armed[0]) {
                        throw new Boom();
                    }
                    return key == null ? 0 : key.hashCode() & 15;
                });
                final Object q = Lib.eq(k, (p, s) -> {
                    if (armed[1]) {
                        throw new Boom();
                    }
                    return p == null ? s == null : p.equals(s);
                });
                lib.setHash(m.o, h);
                lib.setEq(m.o, q);
            }
            final int n = 20 + r.nextInt(150);
            for (int i = 0; i < n; i++) {
                step(m, null, pick(r, r.pick(BASE, RESV, GROW)));
                if (r.nextInt(4) == 0) {
                    failOnce(m, armed);
                }
            }
            m.verify();
            c.nontrivial = m.peak >= 2;
        });
    }

    private static void failOnce(final HashMachine m, final boolean[] armed) throws Throwable {
        final Case c = m.c;
        final Rng r = c.r;
        final HashLib lib = m.lib;
        final int kind = r.nextInt(9);
        final Object it = lib.iterator(m.o, null);
        final int before = m.liveCount == 0 ? 0 : r.nextInt(m.liveCount);
        for (int i = 0; i < before; i++) {
            Lib.EntryIt.next(it);
        }
        switch (kind) {
            case 0:
            case 1:
            case 2: { // a consumer that throws at its j-th call
                if (m.liveCount == 0 || (kind == 2 && !m.isMap())) {
                    return;
                }
                final int at = r.nextInt(m.liveCount);
                c.op("consumer throws at visit " + at + " of traversal " + kind);
                final int[] seen = {0};
                final java.util.function.Consumer<Object> f = o -> {
                    if (seen[0]++ == at) {
                        throw new Boom();
                    }
                };
                boolean boom = false;
                try {
                    if (kind == 0) {
                        lib.forEach(m.o, f);
                    } else if (kind == 1) {
                        lib.forEachEntry(m.o, f);
                    } else {
                        lib.forEachValue(m.o, f);
                    }
                } catch (Boom e) {
                    boom = true;
                }
                c.check(boom, "the consumer's exception was swallowed or element " + at + " not visited");
                c.eq(at + 1, seen[0], "visits of the failing traversal");
                c.count("consumer failures");
                break;
            }
            case 3: { // hash or equality refuses the operation's key
                if (!lib.customizable()) {
                    return;
                }
                final Object k = m.randomKey();
                final int w = r.nextInt(2);
                final int what = r.nextInt(m.isMap() ? 7 : 4);
                c.op((w == 0 ? "hash" : "equality") + " throws in call " + what, k);
                armed[w] = true;
                boolean boom = false;
                try {
                    switch (what) {
                        case 0:
                            lib.add(m.o, k);
                            break;
                        case 1:
                            lib.remove(m.o, k);
                            break;
                        case 2:
                            lib.lookup(m.o, k);
                            break;
                        case 3:
                            lib.contains(m.o, k);
                            break;
                        case 4:
                            lib.put(m.o, k, lib.v.gen(r));
                            break;
                        case 5:
                            lib.getOr(m.o, k, lib.v.def());
                            break;
                        default:
                            lib.get(m.o, k);
                    }
                } catch (Boom e) {
                    boom = true;
                } catch (RuntimeException e) {
                    if (w == 0) {
                        throw e;
                    }
                    boom = what == 6; // get of an absent key
                } finally {
                    armed[w] = false;
                }
                if (!boom) { // no comparison was needed: the call went through
                    c.check(w == 1 || m.liveCount == 0, "an exception of the hash function was swallowed");
                    m.absorb(k, what);
                    c.count("function not called");
                    m.verify();
                    return;
                }
                c.count("hash or equality failures");
                break;
            }
            case 4:
                if (!m.isMap()) {
                    return;
                }
                final Object k = m.absentKey();
                if (k == null || m.live.containsKey(m.canon.apply(k))) {
                    return;
                }
                c.op("get of an absent key", k);
                c.check(throwsIt(() -> lib.get(m.o, k)), "get of an absent key succeeds");
                c.count("unknown keys");
                break;
            case 5: {
                final int e = r.pickInt(-1, -2, Integer.MIN_VALUE, Integer.MAX_VALUE, lib.capacity(m.o),
                        lib.capacity(m.o) + r.nextInt(1000));
                final int what = r.nextInt(m.isMap() ? 5 : 3);
                c.op("out-of-range entry in call " + what, e);
                throwsIt(() -> {
                    switch (what) {
                        case 0:
                            lib.removeAt(m.o, e);
                            break;
                        case 1:
                            lib.reserve(m.o, e);
                            break;
                        case 2:
                            lib.keyAt(m.o, e);
                            break;
                        case 3:
                            if (e < 0 || e > lib.capacity(m.o)) {
                                lib.putValueAt(m.o, e, lib.v.gen(r));
                            }
                            break;
                        default:
                            lib.valueAt(m.o, e);
                    }
                });
                c.count("out-of-range entries");
                break;
            }
            case 6:
                if (!lib.customizable() || m.liveCount == 0) {
                    return;
                }
                refuse(m);
                break;
            case 7: { // second removal through an iterator
                if (m.liveCount == 0) {
                    return;
                }
                final Object it2 = lib.iterator(m.o, null);
                final int steps = 1 + r.nextInt(m.liveCount);
                for (int i = 0; i < steps; i++) {
                    Lib.EntryIt.next(it2);
                }
                final int e = Lib.EntryIt.current(it2);
                c.op("iterator.remove twice", e);
                Lib.EntryIt.remove(it2);
                m.removed(e);
                c.check(throwsIt(() -> Lib.EntryIt.remove(it2)), "second iterator.remove succeeds");
                c.count("second removals");
                int rest = 0;
                while (Lib.EntryIt.next(it2)) {
                    rest++;
                }
                c.eq(m.liveCount - steps + 1, rest, "elements left after the refused removal");
                m.verify();
                return;
            }
            default: { // stale iterator
                if (m.liveCount < 2) {
                    return;
                }
                m.removeLive();
                c.op("stale iterator.remove");
                if (before > 0) {
                    c.check(throwsIt(() -> Lib.EntryIt.remove(it)), "removal by a stale iterator succeeds");
                }
                c.check(throwsIt(() -> Lib.EntryIt.next(it)), "stale iterator continues");
                c.count("stale iterators");
                m.verify();
                return;
            }
        }
        m.verify();
        // the failed call is no change: an iterator opened before goes on
        int rest = 0;
        while (Lib.EntryIt.next(it)) {
            rest++;
        }
        c.eq(m.liveCount - before, rest, "elements delivered by an iterator across the failed call");
    }
}
