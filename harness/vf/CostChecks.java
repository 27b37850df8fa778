package vf;

import java.lang.invoke.MethodHandle;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Map;

/** C35: the work done in the library, counted in its instrumented classes, at growing sizes. */
final class CostChecks {
    private static final int BASE = 64;

    private CostChecks() {}

    static void register() {
        Main.CHECKS.put("C35", CostChecks::c35);
    }

    /** Counts the steps of each phase of a scenario; the phases at the base size give the limits. */
    private static final class Meter {
        final Case c;
        final int n;
        final Map<String, Double> base; // per operation; null while it is being measured
        final Map<String, Double> seen = new HashMap<>();
        final long[] count = Steps.counter();
        private String phase;
        private long from;
        private long limit;
        private long done;

        Meter(final Case c, final int n, final Map<String, Double> base) {
            this.c = c;
            this.n = n;
            this.base = base;
        }

        /** Starts a phase whose work per operation grows with log(size) (or not at all). */
        void phase(final String name, final long ops, final boolean log) {
            c.op(name, n);
            phase = name;
            done = 0;
            limit = Long.MAX_VALUE;
            if (base != null) {
                final double b = base.get(name);
                final double scale = log ? Math.log(n + 2) / Math.log(BASE + 2) : 1;
                limit = (long) ((2.5 * b * scale + 30) * ops) + 1000;
            }
            from = count[0];
        }

        void op() {
            done++;
            if (count[0] - from > limit) {
                exceeded();
            }
        }

        private void exceeded() {
            c.fail(phase + " at size " + n + ": " + (count[0] - from) + " steps for " + done
                    + " operations, at size " + BASE + " there are "
                    + String.format("%.1f", base.get(phase)) + " for each");
        }

        void end() {
            final long steps = count[0] - from;
            c.checks++;
            if (steps > limit) {
                exceeded();
            }
            c.extra += done;
            c.tick();
            c.check(done > 0, "operations");
            seen.put(phase, (double) steps / done);
            c.count("operations counted", done);
            c.count("steps counted", steps);
            if (steps > 0) {
                c.count("phases measured");
            }
            if (base != null && TABLE != null) {
                synchronized (TABLE) {
                    TABLE.merge(phase + " " + Integer.highestOneBit(n), new double[] {seen.get(phase), base.get(phase)},
                            (a, b) -> a[0] > b[0] ? a : b);
                }
            }
        }
    }

    private static final Map<String, double[]> TABLE =
            System.getProperty("vf.table") == null ? null : new java.util.TreeMap<>();

    private interface Scenario {
        void run(Meter m) throws Throwable;
    }

    private static void at(final Case c, final int[] sizes, final Scenario s) throws Throwable {
        final Meter b = new Meter(c, BASE, null);
        s.run(b);
        for (final int n : sizes) {
            s.run(new Meter(c, n, b.seen));
        }
        c.nontrivial = true;
    }

    private static int[] shuffled(final int n, final Rng r) {
        final int[] a = new int[n];
        for (int i = 0; i < n; i++) {
            final int j = r.nextInt(i + 1);
            a[i] = a[j];
            a[j] = i;
        }
        return a;
    }

    /** For the cheap scenarios also a size at which copying in constant portions shows. */
    private static int[] vast(final Ctx x, final Case c) {
        final int[] a = sizes(x, c.r, Integer.MAX_VALUE);
        if (c.index >= 20) {
            return a;
        }
        final int[] b = java.util.Arrays.copyOf(a, a.length + 1);
        b[a.length] = 1_000_000 + c.r.nextInt(100_000);
        return b;
    }

    private static int[] sizes(final Ctx x, final Rng r, final int max) {
        final List<Integer> l = new ArrayList<>();
        for (int n = 1000; n <= Math.min(max, x.thorough ? 100_000 : 20_000); n *= x.thorough ? 3 : 4) {
            l.add(n + r.nextInt(n / 4));
        }
        if (l.isEmpty()) {
            l.add(max);
        }
        return l.stream().mapToInt(i -> Math.min(i, max)).toArray();
    }

    /** The i-th of ordinary keys: consecutive in some way, or random. */
    private static Object key(final T t, final int shape, final int i, final long seed) {
        switch (t) {
            case BYTE:
                return (byte) i;
            case SHORT:
                return (short) (shape % 2 == 0 ? i : -i);
            case CHAR:
                return (char) (shape % 2 == 0 ? i : 0xffff - i);
            case INT:
                return shape == 0 ? i : shape == 1 ? -i : shape == 2 ? i + (int) seed : (int) Rng.mix(seed + i);
            case LONG:
                return shape == 0 ? i : shape == 1 ? (long) i << 32
                        : shape == 2 ? (long) (i / 250) << 32 | i % 250 : Rng.mix(seed + i);
            case FLOAT:
                return shape == 0 ? (float) i : shape == 1 ? -i * 0.25f : shape == 2 ? i * 100f
                        : (float) (int) (Rng.mix(seed + i) >>> 42);
            case DOUBLE:
                return shape == 0 ? (double) i : shape == 1 ? -i * 0.01 : shape == 2 ? i * 1000.0
                        : (Rng.mix(seed + i) >>> 12) * 0x1p-52;
            case STRING:
                return shape == 0 ? "k" + i : shape == 1 ? "com.bytefacets.collections.example." + i
                        : shape == 2 ? i + "@an.example.of.a.longer.domain" : Long.toString(Rng.mix(seed + i), 36);
            default:
                return shape == 0 ? (Object) i : shape == 1 ? (Object) ("key " + i)
                        : shape == 2 ? (Object) new T.Coll(i, i) : (Object) List.of(i / 16, i % 16);
        }
    }

    private static void hash(final Ctx x, final Case c) throws Throwable {
        final HashLib lib = HashChecks.lib(c.index);
        final int max = lib.k == T.BYTE ? 120 : lib.k == T.SHORT || lib.k == T.CHAR ? 25_000 : Integer.MAX_VALUE;
        final double lf = c.r.chance(2) ? 0.75 : c.r.pick(0.5, 0.9, 1.0, 0.3);
        final int shape = c.r.nextInt(4);
        final long seed = c.r.nextLong();
        c.config(lib.name(), "lf=" + lf, "keys=" + shape);
        int[] sizes = sizes(x, c.r, max);
        if (c.index < 27 && max == Integer.MAX_VALUE) {
            sizes = java.util.Arrays.copyOf(sizes, sizes.length + 1);
            sizes[sizes.length - 1] = 100_000 + c.r.nextInt(50_000);
        }
        at(c, sizes, m -> {
            final Rng r = new Rng(seed);
            final int n = m.n;
            final LinkedHashSet<Object> distinct = new LinkedHashSet<>();
            for (int i = 0; distinct.size() < 2 * n; i++) {
                distinct.add(key(lib.k, shape, i, seed));
            }
            final Object[] keys = distinct.toArray();
            final Object o = lib.createExact(16, lf);
            final Object v = lib.v == null ? null : lib.v.tag(1);
            m.phase("add", n, false);
            for (int i = 0; i < n; i++) {
                if (v != null && (i & 1) == 0) {
                    lib.put(o, keys[i], v);
                } else {
                    lib.add(o, keys[i]);
                }
                m.op();
            }
            m.end();
            final int[] order = shuffled(n, r);
            m.phase("look up", n, false);
            for (int i : order) {
                final Object k = keys[i];
                c.check(lib.v == null ? lib.contains(o, k) : lib.lookup(o, k) >= 0, "present");
                m.op();
            }
            m.end();
            m.phase("look up absent", n, false);
            for (int i : order) {
                lib.lookup(o, keys[n + i]);
                m.op();
            }
            m.end();
            m.phase("traverse", n, false);
            lib.forEach(o, k -> m.op());
            m.end();
            m.phase("traverse entries", n, false);
            lib.forEachEntry(o, k -> m.op());
            m.end();
            m.phase("iterate", n, false);
            for (Object it = lib.iterator(o, null); Lib.EntryIt.next(it);) {
                m.op();
            }
            m.end();
            if (v != null) {
                m.phase("traverse values", n, false);
                lib.forEachValue(o, k -> m.op());
                m.end();
                m.phase("get and replace values", n, false);
                for (int i : order) {
                    lib.getOr(o, keys[i], v);
                    lib.put(o, keys[i], lib.get(o, keys[i]));
                    lib.putValueAt(o, i, lib.valueAt(o, i));
                    m.op();
                }
                m.end();
            }
            m.phase("add present and ask the size", n, false);
            for (int i : order) {
                lib.add(o, keys[i]);
                lib.size(o);
                lib.keyAt(o, i);
                m.op();
            }
            m.end();
            m.phase("remove and add", n, false);
            for (int i = 0; i < n; i++) {
                final Object k = keys[order[i]];
                lib.remove(o, k);
                m.op();
                lib.add(o, k);
            }
            m.end();
            m.phase("replace by others", n, false);
            for (int i = 0; i < n / 2; i++) {
                lib.remove(o, keys[order[i]]);
                lib.add(o, keys[n + i]);
                m.op();
            }
            m.end();
            m.phase("remove by entry", n, false);
            for (int e = 0; e < n / 4; e++) {
                lib.removeAt(o, e);
                m.op();
            }
            m.end();
            m.phase("reserve and free", n, false);
            for (int e = n / 4; e < n / 2; e++) {
                lib.reserve(o, e);
                lib.free(o, e);
                m.op();
            }
            m.end();
            final Object p = lib.createExact(16, lf);
            m.phase("copy", n, false);
            lib.copyFrom(p, o);
            m.done = n;
            m.end();
            final Object few = lib.createExact(16, lf);
            for (int i = 0; i < 5; i++) {
                lib.add(few, keys[i]);
            }
            final Object roomy = lib.createExact(n, lf);
            lib.copyFrom(roomy, few);
            m.phase("add after copying", n, false);
            for (int i = 0; i < n; i++) {
                lib.add(roomy, keys[i]);
                m.op();
            }
            m.end();
            m.phase("remove", n, false);
            for (int i : order) {
                lib.remove(o, keys[i]);
                m.op();
            }
            m.end();
            for (int i : order) {
                lib.remove(o, keys[n + i]);
            }
            m.phase("add to released entries", n, false);
            for (int i : order) {
                lib.add(o, keys[i]);
                m.op();
            }
            m.end();
            m.phase("clear", n, false);
            lib.clear(p);
            m.done = n;
            m.end();
            m.phase("add again", n, false);
            for (int i = 0; i < n; i++) {
                lib.add(p, keys[i]);
                m.op();
            }
            m.end();
            m.phase("remove every other by the iterator", n, false);
            for (Object it = lib.iterator(p, null); Lib.EntryIt.next(it);) {
                if ((m.done & 1) == 0) {
                    Lib.EntryIt.remove(it);
                }
                m.op();
            }
            m.end();
            m.phase("remove all by the iterator", n / 2, false);
            for (Object it = lib.iterator(p, null); Lib.EntryIt.next(it);) {
                Lib.EntryIt.remove(it);
                m.op();
            }
            m.end();
        });
        c.count("sets and maps");
    }

    private static void heap(final Ctx x, final Case c) throws Throwable {
        final HeapLib lib = HeapChecks.lib(c.index);
        final long seed = c.r.nextLong();
        final T.Mode mode = lib.k.isRef() || c.r.nextBoolean() ? T.Mode.SEQ : T.Mode.RANDOM;
        c.config(lib.c.getSimpleName(), mode);
        at(c, vast(x, c), m -> {
            final Rng r = new Rng(seed);
            final int n = m.n;
            final Object o = lib.create(16);
            final Object v = lib.v.tag(1);
            m.phase("insert", n, true);
            for (int i = n - 1; i >= 0; i--) {
                if ((i & 1) == 0) {
                    lib.insert(o, lib.k.key(i, mode, seed), v);
                } else {
                    lib.insert(o, lib.k.key(i, mode, seed));
                }
                m.op();
            }
            m.end();
            m.phase("first", n, false);
            for (int i = 0; i < n; i++) {
                lib.peek(o);
                lib.size(o);
                lib.keyAt(o, i);
                lib.valueAt(o, i);
                m.op();
            }
            m.end();
            if (n > 500_000) {
                return; // only the growth is of interest
            }
            m.phase("ask for valid entries", n, false);
            for (int i = 0; i < n; i++) {
                lib.isValid(o, i);
                m.op();
            }
            m.end();
            m.phase("traverse", n, false);
            lib.forEachEntry(o, e -> m.op());
            m.end();
            m.phase("change keys", n, true);
            for (int i = 0; i < n; i++) {
                lib.resetKey(o, r.nextInt(n), lib.k.key(r.nextInt(n), mode, seed));
                m.op();
            }
            m.end();
            m.phase("remove and insert", n, true);
            for (int i = 0; i < n; i++) {
                lib.removeAt(o, r.nextInt(n));
                lib.insert(o, lib.k.key(r.nextInt(n), mode, seed));
                m.op();
            }
            m.end();
            m.phase("change the comparator", n, true);
            lib.setCmp(o, Lib.constant(Lib.typeClass(lib.k), "Desc"));
            m.done = n;
            m.end();
            m.phase("poll", n, true);
            for (int i = 0; i < n; i++) {
                lib.removeAt(o, lib.peek(o));
                m.op();
            }
            m.end();
            m.phase("insert again", n, true);
            for (int i = 0; i < n; i++) {
                lib.insert(o, lib.k.key(i, mode, seed));
                m.op();
            }
            m.end();
            m.phase("clear", n, false);
            lib.clear(o);
            m.done = n;
            m.end();
        });
        c.count("heaps");
    }

    private static void deque(final Ctx x, final Case c) throws Throwable {
        final T t = T.ALL[c.index % 10];
        final Class<?> k = Lib.cls("queue." + t.lib + "Deque");
        final MethodHandle ctor = Lib.ctor(k, int.class);
        final MethodHandle[] add = {Lib.m(k, "addFirst", 1), Lib.m(k, "addLast", 1)};
        final MethodHandle[] remove = {Lib.m(k, "removeFirst", 0), Lib.m(k, "removeLast", 0)};
        final MethodHandle[] peek = {Lib.m(k, "peekFirst", 0), Lib.m(k, "peekLast", 0)};
        final MethodHandle forEach = Lib.m(k, "forEach", 1);
        final MethodHandle clear = Lib.m(k, "clear", 0);
        final MethodHandle size = Lib.m(k, "size", 0);
        final int side = c.r.nextInt(2);
        final int first = c.r.pickInt(2, 3, 16);
        c.config(t.lib, "side=" + side);
        final Object v = t.tag(1);
        at(c, vast(x, c), m -> {
            final int n = m.n;
            final Object o = ctor.invoke((Object) first);
            Object z;
            m.phase("add", n, false);
            for (int i = 0; i < n; i++) {
                z = add[side].invoke(o, v);
                m.op();
            }
            m.end();
            m.phase("look", n, false);
            for (int i = 0; i < n; i++) {
                z = peek[i & 1].invoke(o);
                z = size.invoke(o);
                m.op();
            }
            m.end();
            m.phase("traverse", n, false);
            z = forEach.invoke(o, Lib.consumer(t, a -> m.op()));
            m.end();
            m.phase("go round", n, false);
            for (int i = 0; i < n; i++) {
                z = remove[1 - side].invoke(o);
                z = add[side].invoke(o, v);
                m.op();
            }
            m.end();
            m.phase("use as a stack", n, false);
            for (int i = 0; i < n; i++) {
                z = add[1 - side].invoke(o, v);
                z = remove[1 - side].invoke(o);
                m.op();
            }
            m.end();
            m.phase("remove", n, false);
            for (int i = 0; i < n; i++) {
                z = remove[i & 1].invoke(o);
                m.op();
            }
            m.end();
            m.phase("add at both ends", n, false);
            for (int i = 0; i < n; i++) {
                z = add[i & 1].invoke(o, v);
                m.op();
            }
            m.end();
            m.phase("clear", n, false);
            z = clear.invoke(o);
            m.done = n;
            m.end();
        });
        c.count("deques");
    }

    private static void hydra(final Ctx x, final Case c) throws Throwable {
        final T t = T.ALL[c.index % 10];
        final Class<?> k = Lib.cls("queue." + t.lib + "HydraDeque");
        final MethodHandle ctor = Lib.ctor(k, int.class, int.class);
        final MethodHandle[] add = {Lib.m(k, "addFirst", 2), Lib.m(k, "addLast", 2)};
        final MethodHandle[] remove = {Lib.m(k, "removeFirst", 1), Lib.m(k, "removeLast", 1)};
        final MethodHandle[] iterator = {Lib.m(k, "iterator", 1), Lib.m(k, "reverseIterator", 1)};
        final MethodHandle clear = Lib.m(k, "clear", 0);
        final MethodHandle size = Lib.m(k, "size", 1);
        final MethodHandle next = Lib.m(Lib.cls("functional." + t.lib + "Iterator"), "next", 0);
        final MethodHandle hasNext = Lib.m(Lib.cls("functional." + t.lib + "Iterator"), "hasNext", 0);
        final int shape = c.r.nextInt(3);
        c.config(t.lib, "shape=" + shape);
        final Object v = t.tag(1);
        at(c, vast(x, c), m -> {
            final int n = m.n;
            // one long list, as many short lists as elements, or something in between
            final int lists = shape == 0 ? 1 : shape == 1 ? n : (int) Math.sqrt(n);
            final Object o = ctor.invoke((Object) 2, (Object) 2);
            Object z;
            m.phase("add", n, false);
            for (int i = 0; i < n; i++) {
                z = add[i & 1].invoke(o, (Object) (i % lists), v);
                m.op();
            }
            m.end();
            m.phase("size of a list", n, false);
            for (int i = 0; i < n; i++) {
                z = size.invoke(o, (Object) (i % lists));
                m.op();
            }
            m.end();
            for (int d = 0; d < 2; d++) {
                m.phase(d == 0 ? "traverse" : "traverse backwards", n, false);
                for (int l = 0; l < lists; l++) {
                    final Object it = iterator[d].invoke(o, (Object) l);
                    while ((Boolean) (Object) hasNext.invoke(it)) {
                        z = next.invoke(it);
                        m.op();
                    }
                }
                m.end();
            }
            m.phase("go round", n, false);
            for (int i = 0; i < n; i++) {
                z = remove[i & 1].invoke(o, (Object) (i % lists));
                z = add[1 - (i & 1)].invoke(o, (Object) (i % lists), v);
                m.op();
            }
            m.end();
            m.phase("remove", n, false);
            for (int i = 0; i < n; i++) {
                z = remove[i >> 1 & 1].invoke(o, (Object) (i % lists));
                m.op();
            }
            m.end();
            m.phase("add again", n, false);
            for (int i = 0; i < n; i++) {
                z = add[1].invoke(o, (Object) (i % lists), v);
                m.op();
            }
            m.end();
            m.phase("clear", n, false);
            z = clear.invoke(o);
            m.done = n;
            m.end();
        });
        c.count("hydra deques");
    }

    private static void vector(final Ctx x, final Case c) throws Throwable {
        final T t = T.ALL[c.index % 10];
        final Class<?> k = Lib.cls("vector." + t.lib + "Vector");
        final MethodHandle ctor = Lib.ctor(k, int.class);
        final MethodHandle append = Lib.m(k, "append", 1);
        final MethodHandle valueAt = Lib.m(k, "valueAt", 1);
        final MethodHandle ensureSize = Lib.m(k, "ensureSize", 1);
        final MethodHandle forEach = Lib.m(k, "forEach", 1);
        final MethodHandle clear = Lib.m(k, "clear", 0);
        final StepsArrays arrays = StepsArrays.of(t);
        final boolean ensured = c.r.nextBoolean();
        c.config(t.lib, "ensured=" + ensured);
        final Object v = t.tag(1);
        at(c, vast(x, c), m -> {
            final int n = m.n;
            final Object o = ctor.invoke((Object) 2);
            Object z;
            m.phase("append", n, false);
            for (int i = 0; i < n; i++) {
                if (ensured && (i & 7) == 0) {
                    z = ensureSize.invoke(o, (Object) (i + 8));
                }
                z = append.invoke(o, v);
                m.op();
            }
            m.end();
            m.phase("read", n, false);
            for (int i = 0; i < n; i++) {
                z = valueAt.invoke(o, (Object) i);
                m.op();
            }
            m.end();
            m.phase("traverse", n, false);
            z = forEach.invoke(o, Lib.consumer(t, a -> m.op()));
            m.end();
            m.phase("clear", n, false);
            z = clear.invoke(o);
            m.done = n;
            m.end();
            Object a = t.newArray(2);
            m.phase("ensure entries of an array", n, false);
            for (int i = 0; i < n; i++) {
                a = (i >> 8 & 1) == 0 ? arrays.ensure.invoke(a, (Object) i) : arrays.ensureWith.invoke(a, (Object) i, v);
                m.op();
            }
            m.end();
        });
        c.count("vectors and arrays");
    }

    private record StepsArrays(MethodHandle ensure, MethodHandle ensureWith) {
        static StepsArrays of(final T t) {
            final Class<?> k = Lib.cls("arrays." + t.lib + "Array");
            return new StepsArrays(Lib.m(k, "ensureEntry", 2), Lib.m(k, "ensureEntry", 3));
        }
    }

    private static void store(final Ctx x, final Case c) throws Throwable {
        final T t = T.ALL[c.index % 10];
        final SeqChecks.StoreLib lib = SeqChecks.StoreLib.of(t);
        final int fields = c.r.chance(2) ? 0 : 1 + c.r.nextInt(5);
        c.config(t.lib, "fields=" + fields);
        final Object v = t.tag(1);
        at(c, sizes(x, c.r, 70_000), m -> {
            final int n = m.n;
            final Object o = fields == 0 ? lib.ctor.invoke((Object) 4, (Object) 1024)
                    : lib.mctor.invoke((Object) 4, (Object) 1024, (Object) fields);
            Object z;
            m.phase("set new", n, false);
            for (int i = 0; i < n; i++) {
                z = fields == 0 ? lib.set.invoke(o, (Object) i, v)
                        : lib.mset.invoke(o, (Object) i, (Object) (i % fields), v);
                m.op();
            }
            m.end();
            m.phase("set", n, false);
            for (int i = 0; i < n; i++) {
                z = fields == 0 ? lib.set.invoke(o, (Object) i, v)
                        : lib.mset.invoke(o, (Object) i, (Object) (i % fields), v);
                m.op();
            }
            m.end();
            m.phase("get", n, false);
            for (int i = 0; i < n; i++) {
                z = fields == 0 ? lib.get.invoke(o, (Object) i) : lib.mget.invoke(o, (Object) i, (Object) (i % fields));
                m.op();
            }
            m.end();
        });
        c.count("stores");
    }

    private static void bi(final Ctx x, final Case c) throws Throwable {
        final boolean many = c.r.nextBoolean();
        final int shape = c.index % 5;
        final long seed = c.r.nextLong();
        final Class<?> k = Lib.cls("bi.Compact" + (many ? "ManyToMany" : "OneToMany"));
        final MethodHandle ctor = many ? null : Lib.ctor(k, int.class, int.class, boolean.class);
        final MethodHandle ctor0 = Lib.ctor(k);
        final MethodHandle put = Lib.m(k, "put", 2);
        final MethodHandle contains = Lib.m(k, "contains", 2);
        final MethodHandle remove = Lib.m(k, "remove", 2);
        final MethodHandle removeAt = Lib.m(k, "removeAt", 1);
        final MethodHandle lookup = Lib.m(k, "lookupEntry", 2);
        final MethodHandle reserve = Lib.m(k, "removeAtAndReserve", 1);
        final MethodHandle free = Lib.m(k, "freeReservedEntry", 1);
        final MethodHandle leftAt = Lib.m(k, "getLeftAt", 1);
        final MethodHandle rightAt = Lib.m(k, "getRightAt", 1);
        final MethodHandle withLeft = Lib.m(k, "withLeft", 1);
        final MethodHandle withRight = many ? Lib.m(k, "withRight", 1) : null;
        final Class<?> map = Lib.cls("bi.Mapping");
        final MethodHandle count = Lib.m(map, "count", 0);
        final MethodHandle forEachValue = Lib.m(map, "forEachValue", 1);
        final MethodHandle forEachEntry = Lib.m(k, "forEachEntry", 1);
        c.config(k.getSimpleName(), "shape=" + shape);
        at(c, vast(x, c), m -> {
            final Rng r = new Rng(seed);
            final int n = m.n;
            final int root = (int) Math.ceil(Math.sqrt(n));
            final int[] l = new int[n];
            final int[] t = new int[n];
            final int[] order = shuffled(n, r);
            for (int i = 0; i < n; i++) {
                switch (shape) {
                    case 0: // everything with everything
                        l[i] = i / root;
                        t[i] = i % root;
                        break;
                    case 1: // pairs
                        l[i] = i;
                        t[i] = i;
                        break;
                    case 2: // one to all
                        l[i] = 0;
                        t[i] = i;
                        break;
                    case 3: // groups
                        l[i] = i / 8;
                        t[i] = i;
                        break;
                    default: // shuffled pairs
                        l[i] = i;
                        t[i] = order[i];
                }
            }
            final Object o = c.index % 2 == 0 || many ? ctor0.invoke() : ctor.invoke((Object) 4, (Object) 4, (Object) true);
            Object z;
            m.phase("put", n, false);
            for (int i = 0; i < n; i++) {
                z = put.invoke(o, (Object) l[i], (Object) t[i]);
                m.op();
            }
            m.end();
            if (n > 500_000) {
                return; // only the growth is of interest
            }
            m.phase("look up", n, false);
            for (int i : order) {
                z = lookup.invoke(o, (Object) l[i], (Object) t[i]);
                c.check((Boolean) (Object) contains.invoke(o, (Object) l[i], (Object) t[i]), "association");
                m.op();
            }
            m.end();
            m.phase("count", n, false);
            for (int i : order) {
                z = count.invoke(withLeft.invoke(o, (Object) l[i]));
                if (many) {
                    z = count.invoke(withRight.invoke(o, (Object) t[i]));
                }
                m.op();
            }
            m.end();
            m.phase("navigate", n, false);
            for (int i = 0; i < n; i++) {
                if (i == 0 || l[i] != l[i - 1]) {
                    z = forEachValue.invoke(withLeft.invoke(o, (Object) l[i]), Lib.intConsumer(a -> m.op()));
                }
            }
            m.end();
            m.phase("traverse", n, false);
            z = forEachEntry.invoke(o, Lib.intConsumer(a -> m.op()));
            m.end();
            m.phase("keys of an entry", n, false);
            for (int i : order) {
                z = leftAt.invoke(o, (Object) i);
                z = rightAt.invoke(o, (Object) i);
                m.op();
            }
            m.end();
            m.phase("put again", n, false);
            for (int i : order) {
                z = put.invoke(o, (Object) l[i], (Object) t[i]);
                m.op();
            }
            m.end();
            m.phase("reserve, free and put", n, false);
            for (int i : order) {
                final Object e = lookup.invoke(o, (Object) l[i], (Object) t[i]);
                z = reserve.invoke(o, e);
                z = free.invoke(o, e);
                z = put.invoke(o, (Object) l[i], (Object) t[i]);
                m.op();
            }
            m.end();
            m.phase("remove and put", n, false);
            for (int i : order) {
                z = remove.invoke(o, (Object) l[i], (Object) t[i]);
                z = put.invoke(o, (Object) l[i], (Object) t[i]);
                m.op();
            }
            m.end();
            m.phase("remove", n, false);
            for (int i : order) {
                if (i % 2 == 0) {
                    z = remove.invoke(o, (Object) l[i], (Object) t[i]);
                } else {
                    z = removeAt.invoke(o, (Object) i);
                }
                m.op();
            }
            m.end();
            m.phase("put to released entries", n, false);
            for (int i : order) {
                z = put.invoke(o, (Object) l[i], (Object) t[i]);
                m.op();
            }
            m.end();
        });
        c.count("bidirectional collections");
    }

    private static void sort(final Ctx x, final Case c) throws Throwable {
        final SortChecks.SortLib lib = SortChecks.lib(c.index);
        final int shape = c.r.nextInt(6);
        final long seed = c.r.nextLong();
        c.config(lib.k.lib + lib.v.lib, "shape=" + shape);
        final Object cmp = Lib.constant(Lib.typeClass(lib.k), "Asc");
        at(c, sizes(x, c.r, Integer.MAX_VALUE), m -> {
            final Rng r = new Rng(seed);
            final int n = m.n;
            final List<Object> keys = new ArrayList<>();
            for (int i = 0; i < n; i++) {
                keys.add(lib.k.key(shape == 4 ? i % 5 : shape == 5 ? 7 : i, shape < 3 && !lib.k.isRef() ? T.Mode.RANDOM : T.Mode.SEQ, seed));
            }
            if (shape == 1 || shape == 2 || shape == 3) {
                keys.sort(lib.k.asc());
            }
            if (shape == 2) {
                java.util.Collections.reverse(keys);
            }
            final Object a = lib.k.newArray(n);
            final Object b = lib.v.newArray(n);
            for (int i = 0; i < n; i++) {
                java.lang.reflect.Array.set(a, i, keys.get(i));
            }
            m.phase("sort", n, true);
            lib.sort(a, b, 0, n, cmp);
            m.done = n;
            m.end();
        });
        c.count("sorts");
    }

    private static int c35(final Ctx x) throws Throwable {
        Lib.loader = new Steps(Lib.P + "hash.", Lib.P + "heap.", Lib.P + "queue.", Lib.P + "store.",
                Lib.P + "vector.", Lib.P + "sort.", Lib.P + "arrays.", Lib.P + "bi.", Lib.P + "CapacityCalculator",
                Lib.P + "NumUtils");
        x.rule = "A case is one scenario of one class, run at size 64 and then at growing sizes (1000 and"
                + " more), with the steps of each phase (one kind of operation, on average) counted in the"
                + " instrumented library classes and compared with those at size 64; non-trivial if all"
                + " sizes were measured.";
        x.assume("consecutive or random keys; other keys can share their hash codes or buckets");
        x.parallel("hash", x.n(220, 480), c -> hash(x, c));
        x.parallel("heap", x.n(160, 260), c -> heap(x, c));
        x.parallel("deque", x.n(120, 200), c -> deque(x, c));
        x.parallel("hydra", x.n(120, 200), c -> hydra(x, c));
        x.parallel("vector", x.n(120, 200), c -> vector(x, c));
        x.parallel("store", x.n(120, 200), c -> store(x, c));
        x.parallel("bi", x.n(160, 240), c -> bi(x, c));
        x.parallel("sort", x.n(180, 400), c -> sort(x, c));
        if (TABLE != null) {
            TABLE.forEach((k, v) -> System.out.printf("%-40s %10.1f %10.1f%n", k, v[0], v[1]));
        }
        return x.finish("sets and maps", "heaps", "deques", "hydra deques", "vectors and arrays", "stores",
                "bidirectional collections", "sorts", "phases measured");
    }
}
