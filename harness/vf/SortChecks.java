package vf;

import java.lang.invoke.MethodHandle;
import java.lang.reflect.Array;
import java.util.Arrays;
import java.util.Comparator;
import java.util.HashMap;
import java.util.Map;

/** C19 and C20. */
final class SortChecks {
    private SortChecks() {}

    static void register() {
        Main.CHECKS.put("C19", SortChecks::c19);
        Main.CHECKS.put("C20", SortChecks::c20);
    }

    // ------------------------------------------------------------------ companion sort

    /** The comparator failed on purpose. */
    static final class Boom extends RuntimeException {
        Boom() {
            super("thrown by the monitor");
        }
    }

    /** Compares like the value's own bits: distinguishes zeros, NaN payloads and equal objects. */
    static final class Ref {
        final Object o;

        Ref(final Object o) {
            this.o = o;
        }

        @Override
        public boolean equals(final Object x) {
            return x instanceof Ref r && r.o == o;
        }

        @Override
        public int hashCode() {
            return System.identityHashCode(o);
        }
    }

    static Object bits(final Object v) {
        if (v instanceof Float f) {
            return (long) Float.floatToRawIntBits(f);
        }
        if (v instanceof Double d) {
            return Double.doubleToRawLongBits(d);
        }
        if (v instanceof Number || v instanceof Boolean || v instanceof Character) {
            return v;
        }
        return new Ref(v);
    }

    record Pair(Object a, Object b) {}

    static final class SortLib {
        final T k;
        final T v;
        final MethodHandle sort;

        private SortLib(final T k, final T v) {
            this.k = k;
            this.v = v;
            sort = Lib.m(Lib.cls("sort." + k.lib + v.lib + "CompanionSort"), "sort", 5);
        }

        static SortLib of(final T k, final T v) {
            return Lib.cached("Sort" + k + v, x -> new SortLib(k, v));
        }

        void sort(final Object pri, final Object sec, final int off, final int len, final Object cmp)
                throws Throwable {
            final Object x = (Object) sort.invokeExact(pri, sec, (Object) off, (Object) len, cmp);
        }
    }

    static SortLib lib(final int i) {
        return SortLib.of(T.KEYS[i % 9], T.ALL[i / 9 % 10]);
    }

    /** A comparator with its oracle. */
    record Order(String name, Object lib, Comparator<Object> oracle) {}

    static Comparator<Object> coarse(final T t, final int n) {
        return (a, b) -> Integer.compare(bucket(a, n), bucket(b, n));
    }

    private static int bucket(final Object o, final int n) {
        return Math.floorMod(o instanceof Double d ? (int) (double) d
                : o instanceof Float f ? (int) (float) f : o == null ? 0
                : o instanceof T.Coll k ? (int) k.id : o.hashCode(), n);
    }

    static Order order(final T t, final Rng r) {
        final Class<?> c = Lib.typeClass(t);
        switch (r.nextInt(8)) {
            case 0:
                return new Order("Desc", Lib.constant(c, "Desc"), t.asc().reversed());
            case 1:
                if (t == T.GENERIC) {
                    break;
                }
                return t == T.STRING
                        ? new Order("AscInsensitive", Lib.constant(c, "AscInsensitive"), t.abs())
                        : new Order("AbsAsc", Lib.constant(c, "AbsAsc"), t.abs());
            case 2:
                if (t == T.GENERIC) {
                    break;
                }
                return t == T.STRING
                        ? new Order("DescInsensitive", Lib.constant(c, "DescInsensitive"),
                                t.abs().reversed())
                        : new Order("AbsDesc", Lib.constant(c, "AbsDesc"), t.abs().reversed());
            case 3:
                {
                    final int n = r.pickInt(1, 2, 3, 5, 20);
                    final Comparator<Object> o = coarse(t, n);
                    return new Order("custom modulo " + n, Lib.cmp(t, o), o);
                }
            case 5: // tells apart what == or equals don't
                return new Order("custom bits", Lib.cmp(t, t.fine()), t.fine());
            case 4: // large magnitudes: only the sign counts
                {
                    final Comparator<Object> o = t.asc();
                    return new Order("custom extreme", Lib.cmp(t, (a, b) -> {
                        final int s = o.compare(a, b);
                        return s < 0 ? Integer.MIN_VALUE : s > 0 ? Integer.MAX_VALUE : 0;
                    }), o);
                }
            default:
                break;
        }
        return new Order("Asc", Lib.constant(c, "Asc"), t.asc());
    }

    /** Mutually comparable keys in the shape of a pattern. */
    static Object keys(final T t, final int total, final Rng r, final StringBuilder name) {
        final Object a = t.newArray(total);
        final int p = r.nextInt(12);
        final int few = r.pickInt(1, 2, 3, 4, 7);
        final String[] names = {"random", "special", "few distinct", "sorted", "reversed", "organ pipe",
            "saw", "nearly sorted", "equal blocks", "random small", "valley", "twins"};
        name.append(names[p]);
        final long salt = r.nextInt(1000000);
        for (int i = 0; i < total; i++) {
            final int n;
            switch (p) {
                case 0:
                    Array.set(a, i, comparable(t, r.nextInt(1 << 30), salt));
                    continue;
                case 1:
                    Array.set(a, i, t == T.GENERIC ? generic(r.nextInt(6) == 0 ? -1 : r.nextInt(50))
                            : t.gen(r));
                    continue;
                case 2:
                    n = r.nextInt(few);
                    break;
                case 3:
                    n = i;
                    break;
                case 4:
                    n = total - i;
                    break;
                case 5:
                    n = Math.min(i, total - i);
                    break;
                case 6:
                    n = i % (few * 5);
                    break;
                case 7:
                    n = r.nextInt(10) == 0 ? r.nextInt(total) : i;
                    break;
                case 8:
                    n = i / (few * 3);
                    break;
                case 9:
                    n = r.nextInt(100) - 50;
                    break;
                case 11:
                    Array.set(a, i, twin(t, r, few));
                    continue;
                default:
                    n = Math.max(i, total - i);
                    break;
            }
            Array.set(a, i, simple(t, n));
        }
        return a;
    }

    /** Keys which are equal in some way and different in another. */
    private static Object twin(final T t, final Rng r, final int few) {
        switch (t) {
            case FLOAT:
                return r.pick(0f, -0f, 0f, -0f, Float.NaN, Float.intBitsToFloat(0x7fc00001),
                        Float.intBitsToFloat(0xffc00000), 1f, -1f);
            case DOUBLE:
                return r.pick(0.0, -0.0, 0.0, -0.0, Double.NaN, Double.longBitsToDouble(0x7ff8000000000001L),
                        Double.longBitsToDouble(0xfff8000000000000L), 1.0, -1.0);
            default:
                return simple(t, r.nextInt(few)); // another object each time
        }
    }

    private static Object generic(final int i) {
        return i < 0 ? null : new T.Coll(i, i % 5);
    }

    private static Object comparable(final T t, final int i, final long salt) {
        return t == T.GENERIC ? new T.Coll(i, i % 7) : t.key(i, T.Mode.RANDOM, salt);
    }

    /** Monotone in n where the type allows. */
    static Object simple(final T t, final int n) {
        switch (t) {
            case STRING:
                return new String(String.format("%07d", n + 1000000));
            case GENERIC:
                return new T.Coll(n, n);
            case BOOL:
                return (n & 1) == 1;
            case BYTE:
                return (byte) n;
            case CHAR:
                return (char) n;
            case SHORT:
                return (short) n;
            case LONG:
                return (long) n << 33;
            case FLOAT:
                return n / 2f;
            case DOUBLE:
                return n / 2.0;
            default:
                return n;
        }
    }

    static Map<Pair, Integer> pairs(final Object pri, final Object sec, final int off, final int len) {
        final Map<Pair, Integer> m = new HashMap<>(len * 2);
        for (int i = off; i < off + len; i++) {
            m.merge(new Pair(bits(Array.get(pri, i)), bits(Array.get(sec, i))), 1, Integer::sum);
        }
        return m;
    }

    static Object clone(final Object a) {
        final int n = Array.getLength(a);
        final Object b = Array.newInstance(a.getClass().getComponentType(), n);
        System.arraycopy(a, 0, b, 0, n);
        return b;
    }

    static void outside(final Case c, final Object before, final Object after, final int off,
            final int len, final String what) {
        for (int i = 0; i < Array.getLength(before); i++) {
            if (i < off || i >= off + len) {
                c.check(bits(Array.get(before, i)).equals(bits(Array.get(after, i))),
                        what + " index " + i + " outside [" + off + "," + (off + len) + ") changed");
            }
        }
    }

    static void conserved(final Case c, final Object pri0, final Object sec0, final Object pri,
            final Object sec, final int off, final int len) {
        outside(c, pri0, pri, off, len, "primary");
        outside(c, sec0, sec, off, len, "secondary");
        c.check(pairs(pri0, sec0, off, len).equals(pairs(pri, sec, off, len)),
                "the (key, value) pairs in the range are not the ones it started with");
        c.checks += len;
    }

    static void ordered(final Case c, final Object pri, final int off, final int len, final Order q) {
        for (int i = off + 1; i < off + len; i++) {
            final Object a = Array.get(pri, i - 1);
            final Object b = Array.get(pri, i);
            c.checks++;
            if (q.oracle.compare(a, b) > 0) {
                c.fail("not sorted by " + q.name + ": " + T.show(a) + " at " + (i - 1) + " before "
                        + T.show(b));
            }
        }
    }

    private static int length(final Rng r) {
        switch (r.nextInt(8)) {
            case 0:
                return r.nextInt(7);
            case 1:
                return 5 + r.nextInt(5);
            case 2:
                return 38 + r.nextInt(6);
            case 3:
                return 7 + r.nextInt(34);
            case 7:
                return r.chance(8) ? r.range(1000, 4000) : 200;
            default:
                return 41 + r.nextInt(260);
        }
    }

    private static int c19(final Ctx x) throws Throwable {
        x.rule = "A case is one call of one of the 90 companion sorts (length, offset, key pattern and"
                + " comparator drawn at random; or a failing or inconsistent comparator, an invalid"
                + " range, or a large adversarial array) checked for order, pairing, conservation and"
                + " an untouched surrounding; non-trivial if at least 2 elements were in the range"
                + " (or the range was invalid).";
        x.assume("pairing of equal keys with equal values is only distinguishable by their bits or"
                + " identity");
        x.parallel("sort", x.n(45000, 1500000), c -> {
            final SortLib lib = lib(c.index);
            final int len = length(c.r);
            final int off = c.r.nextBoolean() ? 0 : c.r.nextInt(20);
            final int tail = c.r.nextBoolean() ? 0 : c.r.nextInt(20);
            final StringBuilder name = new StringBuilder();
            final Object pri = keys(lib.k, off + len + tail, c.r, name);
            final Object sec = lib.v.newArray(off + len + tail + c.r.pickInt(0, 0, 3));
            for (int i = 0; i < Array.getLength(sec); i++) {
                Array.set(sec, i, lib.v.tag(i));
            }
            final Order q = order(lib.k, c.r);
            c.config(lib.k.lib + lib.v.lib + "CompanionSort", "n=" + Array.getLength(pri), name, q.name);
            final Object pri0 = clone(pri);
            final Object sec0 = clone(sec);
            c.op("sort", off, len);
            c.fp ^= Arrays.hashCode(new Object[] {c.index});
            lib.sort(pri, sec, off, len, q.lib);
            conserved(c, pri0, sec0, pri, sec, off, len);
            ordered(c, pri, off, len, q);
            c.nontrivial = len > 1;
            c.count("pattern " + name);
            c.count("order " + q.name.split(" ")[0]);
            c.count(len < 7 ? "length <7" : len <= 40 ? "length 7..40" : "length >40");
        });
        x.parallel("comparator", x.n(15000, 500000), c -> {
            final SortLib lib = lib(c.index);
            final int len = length(c.r);
            final int off = c.r.nextInt(5);
            final StringBuilder name = new StringBuilder();
            final Object pri = keys(lib.k, off + len + 3, c.r, name);
            final Object sec = lib.v.newArray(off + len + 3);
            for (int i = 0; i < Array.getLength(sec); i++) {
                Array.set(sec, i, lib.v.tag(i));
            }
            final int kind = c.r.nextInt(7);
            final int[] left = {1 + c.r.nextInt(Math.max(1, len * 4))};
            final Comparator<Object> asc = lib.k.asc();
            final Rng r = c.r;
            final int bound = 2000 * (len + 10);
            final int[] calls = {0};
            final Comparator<Object> f = (a, b) -> {
                calls[0]++;
                switch (kind) {
                    case 0:
                    case 1:
                        if (--left[0] == 0) {
                            throw new Boom();
                        }
                        return asc.compare(a, b);
                    case 2:
                        return r.nextInt(3) - 1;
                    case 3:
                        return r.nextBoolean() ? asc.compare(a, b) : 1;
                    case 4:
                        return -1;
                    case 5:
                        return 1;
                    default:
                        return asc.compare(a, b) < 0 ? -1 : 1; // never 0
                }
            };
            c.config(lib.k.lib + lib.v.lib + "CompanionSort", "n=" + Array.getLength(pri), name,
                    kind < 2 ? "throws at call " + left[0] : "inconsistent " + kind);
            final Object pri0 = clone(pri);
            final Object sec0 = clone(sec);
            c.op("sort", off, len);
            c.fp ^= c.index;
            boolean thrown = false;
            try {
                lib.sort(pri, sec, off, len, Lib.cmp(lib.k, f));
            } catch (Boom e) {
                thrown = true;
                c.count("failing comparators");
            } catch (IllegalArgumentException | StackOverflowError e) {
                c.check(kind >= 2, "unexpected " + e);
                c.count("inconsistent comparators refused");
            }
            c.check(kind >= 2 || thrown == left[0] <= 0, "the comparator's exception did not come through");
            if (kind >= 2) {
                c.count("inconsistent comparators");
            }
            conserved(c, pri0, sec0, pri, sec, off, len);
            c.nontrivial = len > 1;
        });
        x.parallel("ranges", x.n(5000, 100000), c -> {
            final SortLib lib = lib(c.index);
            final int n = c.r.nextInt(60);
            final StringBuilder name = new StringBuilder();
            final Object pri = keys(lib.k, n, c.r, name);
            final int m = c.r.pickInt(n, n, Math.max(0, n - 1), n + 5, c.r.nextInt(60));
            final Object sec = lib.v.newArray(m);
            for (int i = 0; i < m; i++) {
                Array.set(sec, i, lib.v.tag(i));
            }
            final int shorter = Math.min(n, m);
            final int off;
            final int len;
            switch (c.r.nextInt(8)) {
                case 0:
                    off = -1 - c.r.nextInt(3);
                    len = c.r.nextInt(n + 1);
                    break;
                case 1:
                    off = c.r.nextInt(n + 1);
                    len = -1 - c.r.nextInt(3);
                    break;
                case 2:
                    off = c.r.nextInt(shorter + 1);
                    len = shorter - off + 1 + c.r.nextInt(3);
                    break;
                case 3:
                    off = shorter + 1 + c.r.nextInt(3);
                    len = c.r.nextInt(3);
                    break;
                case 4:
                    off = c.r.pickInt(Integer.MAX_VALUE, Integer.MAX_VALUE - 1, 1, n);
                    len = c.r.pickInt(Integer.MAX_VALUE, Integer.MAX_VALUE - 3);
                    break;
                case 5:
                    off = c.r.pickInt(Integer.MIN_VALUE, -1);
                    len = c.r.pickInt(Integer.MAX_VALUE, Integer.MIN_VALUE, 1, 0);
                    break;
                case 6:
                    off = c.r.nextInt(shorter + 1);
                    len = Integer.MIN_VALUE;
                    break;
                default:
                    off = Integer.MAX_VALUE;
                    len = 2;
                    break;
            }
            c.config(lib.k.lib + lib.v.lib + "CompanionSort", "primary=" + n, "secondary=" + m);
            final Object pri0 = clone(pri);
            final Object sec0 = clone(sec);
            c.op("sort", off, len);
            boolean refused = false;
            try {
                lib.sort(pri, sec, off, len, order(lib.k, c.r).lib);
            } catch (IllegalArgumentException e) {
                refused = true;
            }
            c.check(refused, "the range [" + off + ",+" + len + ") is not refused");
            outside(c, pri0, pri, 0, 0, "primary");
            outside(c, sec0, sec, 0, 0, "secondary");
            c.count("invalid ranges refused");
            c.nontrivial = true;
        });
        x.parallel("large", x.n(24, 400), c -> {
            final SortLib lib = lib(c.index * 7);
            final int len = c.index % 8 == 7 ? c.r.range(300000, 1200000) : c.r.range(15000, 60000);
            final StringBuilder name = new StringBuilder();
            final Object pri = keys(lib.k, len, c.r, name);
            final Object sec = T.INT.newArray(len);
            final SortLib byInt = SortLib.of(lib.k, T.INT);
            for (int i = 0; i < len; i++) {
                Array.setInt(sec, i, i);
            }
            final Order q = order(lib.k, c.r);
            c.config(byInt.k.lib + "IntCompanionSort", "n=" + len, name, q.name);
            final Object pri0 = clone(pri);
            final Object sec0 = clone(sec);
            c.op("sort", 0, len);
            onSmallStack(() -> byInt.sort(pri, sec, 0, len, q.lib));
            conserved(c, pri0, sec0, pri, sec, 0, len);
            ordered(c, pri, 0, len, q);
            c.nontrivial = true;
            c.count(len > 65536 ? "vast arrays" : "large arrays");
        });
        x.parallel("adversary", x.n(8, 40), c -> {
            // McIlroy's adversary: fixes the order of the keys while the sort asks
            final int len = c.r.range(9000, 16000);
            final int[] val = new int[len];
            Arrays.fill(val, len);
            final int[] state = {0, -1};
            final int[] pri = new int[len];
            final long[] sec = new long[len];
            for (int i = 0; i < len; i++) {
                pri[i] = i;
                sec[i] = i;
            }
            c.config("IntLongCompanionSort", "n=" + len, "adversary");
            c.op("sort", 0, len);
            final com.bytefacets.collections.types.IntType.Cmp cmp = (a, b) -> {
                if (val[a] == len && val[b] == len) {
                    val[a == state[1] ? a : b] = state[0]++;
                }
                if (val[a] == len) {
                    state[1] = a;
                } else if (val[b] == len) {
                    state[1] = b;
                }
                return Integer.compare(val[a], val[b]);
            };
            final SortLib lib = SortLib.of(T.INT, T.LONG);
            onSmallStack(() -> lib.sort(pri, sec, 0, len, cmp));
            for (int i = 0; i < len; i++) {
                c.eq((long) pri[i], sec[i], "value of the key at " + i);
                c.check(i == 0 || val[pri[i - 1]] <= val[pri[i]], "not sorted at " + i);
            }
            final int[] again = val.clone();
            final Object other = T.DOUBLE.newArray(len);
            c.op("sort", 0, len);
            onSmallStack(() -> SortLib.of(T.INT, T.DOUBLE).sort(again, other, 0, len,
                    Lib.constant(Lib.typeClass(T.INT), "Asc")));
            for (int i = 1; i < len; i++) {
                c.check(again[i - 1] <= again[i], "not sorted at " + i);
            }
            c.nontrivial = true;
            c.count("adversarial arrays");
        });
        return x.finish("length <7", "length 7..40", "length >40", "failing comparators",
                "inconsistent comparators", "invalid ranges refused", "large arrays", "vast arrays",
                "adversarial arrays");
    }

    interface Action {
        void run() throws Throwable;
    }

    /** On a thread with a stack of 512 kB: recursion must not depend on the input. */
    static void onSmallStack(final Action a) throws Throwable {
        final Throwable[] t = {null};
        final Thread th = new Thread(null, () -> {
            try {
                a.run();
            } catch (Throwable e) {
                t[0] = e;
            }
        }, "small-stack", 512 << 10);
        th.start();
        th.join();
        if (t[0] != null) {
            throw t[0];
        }
    }

    // ------------------------------------------------------------------ arrays

    static final class ArrayLib {
        final T t;
        final MethodHandle create, createDef, createTyped, resize, fill, fillRange, copyDef, copy, ensure,
                ensureDef, entry, entryDef;

        private ArrayLib(final T t) {
            this.t = t;
            final Class<?> c = Lib.cls("arrays." + t.lib + "Array");
            create = Lib.m(c, "create", int.class);
            createDef = Lib.m(c, "create", int.class, t.cls);
            createTyped = t == T.GENERIC ? Lib.m(c, "create", Class.class, int.class) : null;
            resize = Lib.m(c, "resize", 2);
            fill = Lib.m(c, "fill", 2);
            fillRange = Lib.m(c, "fill", 4);
            copyDef = Lib.m(c, "copyOf", 3);
            copy = Lib.m(c, "copyOf", 2);
            ensure = Lib.m(c, "ensureSize", 2);
            ensureDef = Lib.m(c, "ensureSize", 3);
            entry = Lib.m(c, "ensureEntry", 2);
            entryDef = Lib.m(c, "ensureEntry", 3);
        }

        static ArrayLib of(final T t) {
            return Lib.cached("Array" + t, k -> new ArrayLib(t));
        }
    }

    /** Same value, with zeros compared as numbers and objects by identity. */
    static boolean same(final Object a, final Object b) {
        if (a instanceof Float f && b instanceof Float g) {
            return f.floatValue() == g.floatValue() || Float.floatToRawIntBits(f) == Float.floatToRawIntBits(g);
        }
        if (a instanceof Double f && b instanceof Double g) {
            return f.doubleValue() == g.doubleValue()
                    || Double.doubleToRawLongBits(f) == Double.doubleToRawLongBits(g);
        }
        if (a instanceof Number || a instanceof Boolean || a instanceof Character) {
            return a.equals(b);
        }
        return a == b;
    }

    /** Array contents: kept up to 'kept', then 'rest' to the end. */
    static void contents(final Case c, final Object old, final int kept, final Object now,
            final int length, final Object rest, final String what) {
        c.check(now != null, what + " gives null");
        c.eq(length, Array.getLength(now), "length of the array " + what + " gives");
        for (int i = 0; i < length; i++) {
            final Object v = Array.get(now, i);
            final Object e = i < kept ? Array.get(old, i) : rest;
            c.checks++;
            if (i < kept ? !bits(e).equals(bits(v)) : !same(e, v)) {
                c.fail(what + ": index " + i + " is " + T.show(v) + " instead of " + T.show(e));
            }
        }
    }

    private static int doubled(final int from, final int need) {
        long n = Math.max(1, from);
        while (n < need) {
            n *= 2;
        }
        return (int) n;
    }

    private static boolean refused(final Case c, final Action a, final String what) throws Throwable {
        try {
            a.run();
        } catch (RuntimeException e) {
            c.checks++;
            c.count("refused arguments");
            return true;
        }
        c.fail(what + " is not refused");
        return false;
    }

    private static int c20(final Ctx x) throws Throwable {
        x.rule = "A case is one series of calls on the array utilities of one of the ten element types"
                + " (length, sizes, offsets, values and the arrays' component types drawn at random);"
                + " non-trivial if an array of at least 2 elements was handed over; distinct by a"
                + " hash of the calls and their arguments.";
        x.assume("signed zeros given as fill or default values are compared as numbers");
        x.parallel("arrays", x.n(40000, 1500000), SortChecks::arrays);
        return x.finish("create", "resize", "fill", "copyOf", "ensureSize grows", "ensureSize suffices",
                "ensureEntry", "refused arguments", "component types kept");
    }

    private static Object source(final Case c, final T t, final int n) {
        final Object a;
        if (t == T.GENERIC) {
            final Class<?> k = c.r.nextInt(3) == 0 ? String.class : c.r.nextInt(3) == 0 ? Long.class
                    : Object.class;
            a = Array.newInstance(k, n);
            for (int i = 0; i < n; i++) {
                Array.set(a, i, element(t, k, c.r));
            }
        } else {
            a = t.newArray(n);
            for (int i = 0; i < n; i++) {
                Array.set(a, i, t.gen(c.r));
            }
        }
        return a;
    }

    private static Object element(final T t, final Class<?> k, final Rng r) {
        return k == String.class ? T.STRING.gen(r) : k == Long.class ? T.LONG.gen(r) : t.gen(r);
    }

    static void arrays(final Case c) throws Throwable {
        final T t = T.ALL[c.index % 10];
        final ArrayLib lib = ArrayLib.of(t);
        final int n0 = c.r.pickInt(0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 100, c.r.nextInt(300));
        Object a = source(c, t, n0);
        c.config(t.lib + "Array", "length=" + n0, a.getClass().getComponentType().getSimpleName());
        c.nontrivial = n0 >= 2;
        for (int step = 0; step < 6; step++) {
            final int n = Array.getLength(a);
            final Class<?> k = a.getClass().getComponentType();
            final Object before = clone(a);
            final Object v = c.r.nextInt(4) == 0 ? t.def() : element(t, k, c.r);
            final int size = c.r.pickInt(0, 1, n, n + 1, Math.max(0, n - 1), 2 * n, 2 * n + 1, n / 2,
                    c.r.nextInt(600), -c.r.nextInt(5));
            Object b = null;
            switch (c.r.nextInt(12)) {
                case 0:
                    if (size < 0) {
                        c.op("create", size);
                        refused(c, () -> create(lib, size), "create(" + size + ")");
                        break;
                    }
                    c.op("create", size);
                    b = create(lib, size);
                    contents(c, b, 0, b, size, t.def(), "create(" + size + ")");
                    c.check(b.getClass().getComponentType() == t.cls, "create gives " + b.getClass());
                    c.count("create");
                    b = null;
                    break;
                case 1:
                    if (size < 0) {
                        break;
                    }
                    c.op("create", size, v);
                    b = (Object) lib.createDef.invokeExact((Object) size, v);
                    contents(c, b, 0, b, size, v, "create(" + size + ", " + T.show(v) + ")");
                    c.check(b.getClass().getComponentType() == t.cls, "create gives " + b.getClass());
                    c.count("create");
                    b = null;
                    break;
                case 2:
                    if (lib.createTyped == null || size < 0) {
                        break;
                    }
                    c.op("create typed", size, k);
                    b = (Object) lib.createTyped.invokeExact((Object) k, (Object) size);
                    contents(c, b, 0, b, size, null, "create(" + k + ", " + size + ")");
                    c.check(b.getClass().getComponentType() == k, "create gives " + b.getClass());
                    c.count("component types kept");
                    b = null;
                    break;
                case 3:
                    {
                        c.op("resize", n, size);
                        final Object src = a;
                        if (size < 0) {
                            refused(c, () -> resize(lib, src, size), "resize to " + size);
                            break;
                        }
                        b = resize(lib, a, size);
                        contents(c, before, Math.min(n, size), b, size, t.def(), "resize(" + n + " to "
                                + size + ")");
                        c.check(b != a || size == n, "resize gives the same array");
                        c.count("resize");
                        break;
                    }
                case 4:
                    {
                        c.op("copyOf", n, size);
                        if (size < 0) {
                            final Object src = a;
                            refused(c, () -> copy(lib, src, size), "copyOf to " + size);
                            break;
                        }
                        b = copy(lib, a, size);
                        contents(c, before, Math.min(n, size), b, size, t.def(), "copyOf(" + n + " to "
                                + size + ")");
                        c.check(b != a, "copyOf gives the same array");
                        c.count("copyOf");
                        break;
                    }
                case 5:
                    {
                        c.op("copyOf with default", size, v);
                        if (size < 0) {
                            final Object src = a;
                            refused(c, () -> copyDef(lib, src, size, v), "copyOf to " + size);
                            break;
                        }
                        b = copyDef(lib, a, size, v);
                        contents(c, before, Math.min(n, size), b, size, v, "copyOf(" + n + " to " + size
                                + ", " + T.show(v) + ")");
                        c.check(b != a, "copyOf gives the same array");
                        c.count("copyOf");
                        break;
                    }
                case 6:
                    {
                        c.op("fill", v);
                        final Object z = (Object) lib.fill.invokeExact(a, v);
                        contents(c, a, 0, a, n, v, "fill(" + T.show(v) + ")");
                        c.count("fill");
                        continue;
                    }
                case 7:
                    {
                        final int off = n == 0 ? 0 : c.r.nextInt(n + 1);
                        final int len = c.r.pickInt(0, n - off, c.r.nextInt(n - off + 1));
                        c.op("fill range " + T.show(v), off, len);
                        fill(lib, a, v, off, len);
                        for (int i = 0; i < n; i++) {
                            final Object e = Array.get(a, i);
                            final boolean in = i >= off && i < off + len;
                            c.check(in ? same(v, e) : bits(Array.get(before, i)).equals(bits(e)),
                                    "fill [" + off + ",+" + len + "): index " + i + " is " + T.show(e));
                        }
                        c.count("fill");
                        continue;
                    }
                case 8:
                    {
                        final Object src = a;
                        final int off = c.r.pickInt(-1, -2, n, n + 1, Integer.MIN_VALUE, Integer.MAX_VALUE,
                                c.r.nextInt(n + 1));
                        final int len = off >= 0 && off < n ? n - off + 1 + c.r.nextInt(3)
                                : 1 + c.r.nextInt(3);
                        c.op("fill outside", off, len);
                        refused(c, () -> fill(lib, src, v, off, len), "fill [" + off + ",+" + len
                                + ") of length " + n);
                        for (int i = 0; i < n; i++) {
                            final Object e = Array.get(a, i);
                            c.check(i >= off && i < (long) off + len
                                            || bits(Array.get(before, i)).equals(bits(e)),
                                    "refused fill changed index " + i);
                        }
                        continue;
                    }
                case 9:
                case 10:
                    {
                        final boolean def = c.r.nextBoolean();
                        c.op(def ? "ensureSize with default" : "ensureSize", size, v);
                        b = def ? (Object) lib.ensureDef.invokeExact(a, (Object) size, v)
                                : (Object) lib.ensure.invokeExact(a, (Object) size);
                        ensured(c, before, a, b, size, def ? v : t.def(), "ensureSize(" + size + ") of "
                                + n);
                        break;
                    }
                default:
                    {
                        final boolean def = c.r.nextBoolean();
                        final int e = size - 1;
                        c.op(def ? "ensureEntry with default" : "ensureEntry", e, v);
                        if (size < 0) {
                            break;
                        }
                        b = def ? (Object) lib.entryDef.invokeExact(a, (Object) e, v)
                                : (Object) lib.entry.invokeExact(a, (Object) e);
                        ensured(c, before, a, b, size, def ? v : t.def(), "ensureEntry(" + e + ") of "
                                + n);
                        c.count("ensureEntry");
                        break;
                    }
            }
            contents(c, before, n, a, n, null, "source array");
            if (b != null) {
                if (t == T.GENERIC) {
                    c.check(b.getClass() == a.getClass(), "array of " + k + " became " + b.getClass());
                    c.count("component types kept");
                }
                if (Array.getLength(b) > 0 && b != a) { // no shared storage
                    final int i = c.r.nextInt(Array.getLength(b));
                    if (i < n) {
                        Array.set(b, i, element(t, k, c.r));
                        contents(c, before, n, a, n, null, "source array after writing to the copy");
                    }
                }
                if (Array.getLength(b) < 2000) {
                    a = b;
                }
            }
        }
    }

    private static void ensured(final Case c, final Object before, final Object a, final Object b,
            final int size, final Object rest, final String what) {
        final int n = Array.getLength(before);
        if (size <= n) {
            c.check(a == b, what + " does not give the same array although it suffices");
            c.count("ensureSize suffices");
        } else {
            c.check(b != null && Array.getLength(b) >= size, what + " gives too short an array");
            contents(c, before, n, b, doubled(n, size), rest, what);
            c.count("ensureSize grows");
        }
    }

    private static Object create(final ArrayLib lib, final int n) throws Throwable {
        return (Object) lib.create.invokeExact((Object) n);
    }

    private static Object resize(final ArrayLib lib, final Object a, final int n) throws Throwable {
        return (Object) lib.resize.invokeExact(a, (Object) n);
    }

    private static Object copy(final ArrayLib lib, final Object a, final int n) throws Throwable {
        return (Object) lib.copy.invokeExact(a, (Object) n);
    }

    private static Object copyDef(final ArrayLib lib, final Object a, final int n, final Object v)
            throws Throwable {
        return (Object) lib.copyDef.invokeExact(a, (Object) n, v);
    }

    private static void fill(final ArrayLib lib, final Object a, final Object v, final int off,
            final int len) throws Throwable {
        final Object z = (Object) lib.fillRange.invokeExact(a, v, (Object) off, (Object) len);
    }
}
