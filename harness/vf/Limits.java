package vf;

import java.lang.reflect.Array;

/** C30: sizes, indexes and keys near the limits. */
final class Limits {
    private Limits() {}

    private interface Call {
        Object run() throws Throwable;
    }

    private static final Object REFUSED = new Object();

    private static final int MAX = Integer.MAX_VALUE;
    private static final int MIN = Integer.MIN_VALUE;

    /** The result or REFUSED; sizes the virtual machine cannot offer count as refused. */
    private static Object attempt(final Case c, final Call call) throws Throwable {
        try {
            return call.run();
        } catch (Violation v) {
            throw v;
        } catch (RuntimeException e) {
            c.count("requests refused");
            return REFUSED;
        } catch (OutOfMemoryError e) {
            if (String.valueOf(e.getMessage()).contains("VM limit")) {
                c.count("requests beyond the array limit");
            } else {
                c.count("memory exhausted");
            }
            return REFUSED;
        }
    }

    private static void mustRefuse(final Case c, final String what, final Call call) throws Throwable {
        c.op(what);
        c.check(attempt(c, call) == REFUSED, what + " is accepted");
    }

    static int run(final Ctx x) throws Throwable {
        x.rule = "A case is one constructor call with sizes from the whole int range, or one history with"
                + " requests at and beyond the limits put in, followed by a comparison of the content and"
                + " more ordinary calls, or one collection filled up to its largest capacity; non-trivial"
                + " if a request was refused or the collection was grown.";
        x.assume("requests which exhaust the memory of the virtual machine are set aside");
        final int n = x.n(6000, 150000);
        x.parallel("constructors", n, Limits::constructors);
        x.parallel("requests", n, Limits::requests);
        x.parallel("arrays", n, Limits::arrays);
        x.serial("calculator", 1, Limits::calculator);
        large(x);
        return x.finish("constructors refused", "constructed", "requests refused",
                "requests beyond the array limit", "array requests", "hash", "heap", "deque", "hydra",
                "vector", "store", "matrix", "bi", "largest deque", "largest heap", "huge vector",
                "huge array", "huge store", "huge first size", "huge matrix", "huge keys");
    }

    // ------------------------------------------------------------------ constructors

    private static int bad(final Rng r) {
        return r.pickInt(0, -1, -2, -3, -8, -1000, MIN, MIN + 1, -(1 << 30), -(1 << 30) - 1, -(1 << 29));
    }

    private static int beyond(final Rng r) {
        return r.pickInt((1 << 30) + 1, MAX, MAX - 1, MAX - 8, (1 << 30) + (1 << 29));
    }

    private static void constructors(final Case c) throws Throwable {
        final Rng r = c.r;
        final T t = T.ALL[c.index % 10];
        final int small = r.pickInt(1, 2, 3, 5, 8, 16, 17, 33);
        switch (c.index / 10 % 7) {
            case 0: {
                final HashLib lib = HashChecks.lib(c.index);
                final int cap = r.chance(2) ? small : r.pickInt(bad(r), beyond(r), (1 << 29) + 1, 1 << 30);
                final double lf = r.pick(0.75, 0.5, 1.0, 0.01, 0.0, -0.0, -1.0, -0.75, Double.NaN,
                        Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY, 1.0000000000000002, 2.0, 75.0,
                        -Double.MIN_VALUE, Double.MAX_VALUE);
                c.config(lib.name(), "cap=" + cap, "lf=" + lf);
                c.op("new");
                final boolean valid = cap == small && lf > 0 && lf <= 1;
                if (!valid) {
                    made(c, () -> lib.createExact(cap, lf), true);
                    final Object o = cap == small ? null : attempt(c, () -> lib.create(cap, 0.75));
                    c.check(o == null || o == REFUSED, "capacity " + cap + " is accepted");
                    return;
                }
                final HashMachine m = new HashMachine(c, lib, HashMachine.MEMBER | HashMachine.ENTRY);
                m.keySpace = 20;
                m.keyGen = i -> lib.k.key(i, T.Mode.SEQ, 0);
                m.create(cap, lf);
                c.eq(0, lib.size(m.o), "size of a new collection");
                HashChecks.drive(m, null, 40, HashChecks.BASE);
                m.verify();
                break;
            }
            case 1: {
                final HeapLib lib = HeapChecks.lib(c.index);
                final boolean neg = r.nextInt(3) > 0;
                if (neg) {
                    final int cap = Math.min(-1, bad(r));
                    c.config(lib.c.getSimpleName(), "cap=" + cap);
                    c.op("new");
                    made(c, () -> lib.create(cap), true);
                    return;
                }
                final HeapMachine m = HeapMachine.random(c, lib, HeapMachine.ORDER | HeapMachine.CONTENT);
                c.eq(0, lib.size(m.o), "size of a new heap");
                HeapChecks.drive(m, 40, HeapChecks.BASE);
                m.verify();
                break;
            }
            case 2: {
                final int cap = r.chance(3) ? small : r.nextBoolean() ? bad(r) : beyond(r);
                final SeqChecks.DequeMachine m = new SeqChecks.DequeMachine(c, t);
                c.config(t.lib + "Deque", "cap=" + cap);
                c.op("new");
                if (made(c, () -> {
                    m.create(cap);
                    return m;
                }, cap < 1) == null) {
                    return;
                }
                m.verify();
                m.drive(40);
                break;
            }
            case 3: {
                final int cap = r.chance(2) ? small : r.nextBoolean() ? bad(r) : beyond(r);
                final int q = r.chance(2) ? r.pickInt(0, 1, 2, 3) : Math.min(-1, bad(r));
                final SeqChecks.HydraMachine m = new SeqChecks.HydraMachine(c, t);
                c.config(t.lib + "HydraDeque", "queues=" + q, "cap=" + cap);
                m.lists = 3;
                c.op("new");
                if (made(c, () -> {
                    m.create(q, cap);
                    return m;
                }, cap < 1 || q < 0) == null) {
                    return;
                }
                m.verify();
                m.drive(40);
                break;
            }
            case 4: {
                final int cap = r.chance(3) ? small : r.nextInt(4) > 0 ? bad(r) : r.pickInt(MAX, MAX - 1);
                final SeqChecks.VectorMachine m = new SeqChecks.VectorMachine(c, t);
                c.config(t.lib + "Vector", "cap=" + cap);
                c.op("new");
                if (made(c, () -> {
                    m.create(cap);
                    return m;
                }, cap < 1) == null) {
                    return;
                }
                m.verify();
                for (int i = 0; i < 40; i++) {
                    m.append(m.value());
                }
                m.verify();
                break;
            }
            case 5: {
                final boolean matrix = r.nextInt(3) > 0;
                final int init = r.chance(2) ? small : r.pickInt(bad(r), 1 << 20, 1 << 16, 65537);
                final int chunk = r.chance(2) ? small : r.nextBoolean() ? bad(r) : beyond(r);
                final int f = r.chance(2) ? small : r.pickInt(bad(r), 1 << 20, 1 << 16, 65537);
                final boolean large = (long) init * f > 1 << 16 && (long) init * f <= MAX;
                if (matrix && large || !matrix && init > 1 << 16) {
                    c.count("left out");
                    return;
                }
                c.config(t.lib + (matrix ? "ChunkMatrixStore" : "ChunkStore"), "init=" + init,
                        "chunk=" + chunk, "fields=" + (matrix ? f : 0));
                c.op("new");
                final boolean refuse = matrix && (init < 1 || chunk < 2 || f < 1 || (long) init * f > MAX);
                final SeqChecks.StoreMachine m = (SeqChecks.StoreMachine) made(c,
                        () -> matrix && f == 0
                                ? (Object) SeqChecks.StoreLib.of(t).mctor.invokeExact((Object) init,
                                        (Object) chunk, (Object) f)
                                : new SeqChecks.StoreMachine(c, t, matrix ? f : 0, init, chunk, 60),
                        refuse);
                if (m == null) {
                    return;
                }
                c.check(m.capacity() >= init, "capacity " + m.capacity() + " below the initial size " + init);
                m.verify();
                m.drive(40);
                break;
            }
            default: {
                final boolean many = r.nextBoolean();
                final int[] s = {r.pickInt(0, small), many ? r.pickInt(0, small) : 1, r.pickInt(0, small)};
                final int which = r.pickInt(0, 2, many ? 1 : 0, 3);
                if (which < 3) {
                    s[which] = Math.min(-1, bad(r));
                }
                final boolean counts = r.nextBoolean();
                c.config(many ? "ManyToMany" : "OneToMany", "left=" + s[0], "right=" + s[1], "cap=" + s[2],
                        "counts=" + counts);
                c.op("new");
                final BiMachine m = (BiMachine) made(c,
                        () -> new BiMachine(c, many, s[0], s[1], s[2], counts), which < 3);
                if (m == null) {
                    return;
                }
                m.verify();
                for (int i = 0; i < 40; i++) {
                    m.step();
                }
                m.verify();
            }
        }
        c.count("constructed");
        c.nontrivial = true;
    }

    /** The new object, or null if its construction is refused. */
    private static Object made(final Case c, final Call call, final boolean refuse) throws Throwable {
        final Object o = attempt(c, call);
        if (o == REFUSED) {
            c.checks++;
            c.count("constructors refused");
            c.nontrivial = true;
            return null;
        }
        c.check(!refuse, "a constructor accepts " + c.config);
        return o;
    }

    // ------------------------------------------------------------------ requests

    private static void requests(final Case c) throws Throwable {
        final Rng r = c.r;
        final T t = T.ALL[c.index % 10];
        c.nontrivial = true;
        switch (c.index / 10 % 7) {
            case 0: {
                final HashLib lib = HashChecks.lib(c.index);
                final HashMachine m = HashMachine.random(c, lib, 0);
                HashChecks.drive(m, null, 40, HashChecks.GROW);
                m.verify();
                c.count("hash");
                break;
            }
            case 1: {
                final HeapLib lib = HeapChecks.lib(c.index);
                final HeapMachine m = HeapMachine.random(c, lib, HeapMachine.CONTENT);
                int held = 0;
                for (int i = 0; i < 60; i++) {
                    m.insertRandom();
                    final int cap = lib.capacity(m.o);
                    c.check(cap >= held && cap >= m.size, "capacity is " + cap + " after " + held + " with "
                            + m.size + " elements");
                    held = cap;
                }
                m.verify();
                c.count("heap");
                break;
            }
            case 2: {
                final SeqChecks.DequeMachine m = SeqChecks.DequeMachine.random(c, t);
                for (int i = 0; i < 100; i++) {
                    m.add(r.nextInt(3) == 0, m.value());
                }
                m.verify();
                c.count("deque");
                break;
            }
            case 3: {
                final SeqChecks.HydraMachine m = SeqChecks.HydraMachine.random(c, t);
                m.drive(r.nextInt(30));
                for (int i = 0; i < 6; i++) {
                    final int id = r.pickInt(-1, -2, MIN, MIN + 1, MAX, MAX - 1, -m.lists, -(1 << 30));
                    final boolean first = r.nextBoolean();
                    final Object v = m.value();
                    mustRefuse(c, (first ? "addFirst " : "addLast ") + id,
                            () -> first ? (Object) m.lib.addFirst.invokeExact(m.o, (Object) id, v)
                                    : (Object) m.lib.addLast.invokeExact(m.o, (Object) id, v));
                    m.verify();
                    m.step();
                }
                final int id = r.pickInt(1000, 65535, 65536, 100000);
                m.add(id, r.nextBoolean(), m.value());
                m.verify();
                m.remove(id, r.nextBoolean());
                m.drive(20);
                c.count("hydra");
                break;
            }
            case 4: {
                final SeqChecks.VectorMachine m = SeqChecks.VectorMachine.random(c, t);
                for (int i = 0; i < 8; i++) {
                    for (int k = r.nextInt(10); k > 0; k--) {
                        m.append(m.value());
                    }
                    final int s = r.pickInt(0, -1, MIN, MIN + 1, MAX, MAX - 1, -(1 << 30), 100000, 65537);
                    if (s < MAX - 1) {
                        m.ensure(s);
                    } else {
                        mustRefuse(c, "ensureSize " + s,
                                () -> (Object) m.lib.ensureSize.invokeExact(m.o, (Object) s));
                    }
                    m.verify();
                }
                c.count("vector");
                break;
            }
            case 5: {
                final boolean matrix = r.nextInt(3) > 0;
                final SeqChecks.StoreMachine m = new SeqChecks.StoreMachine(c, t, matrix);
                for (int i = 0; i < 8; i++) {
                    m.set(r.nextInt(m.span), matrix ? r.nextInt(m.fields) : 0);
                    final int f = matrix ? r.nextInt(m.fields) : 0;
                    final int row;
                    if (!matrix) {
                        row = r.pickInt(MAX, -1, MIN, MIN + 1, -(1 << 30));
                    } else if (m.fields == 1) {
                        row = r.pickInt(MAX, MIN, -1);
                    } else {
                        // rows whose number of cells is beyond the int range; many products of them
                        // are small or negative when computed as an int
                        final long first = (1L << 31) / m.fields + 1;
                        final long wrap = (1L << 32) / m.fields;
                        row = (int) Math.min(MAX, Math.max(first,
                                r.pick(first, first + r.nextInt(1000), wrap, wrap + 1, wrap + r.nextInt(1000),
                                        2 * wrap, 3 * wrap + 1, (long) MAX, MAX - 1L, MAX - (long) r.nextInt(1000),
                                        1L << 30, (1L << 30) + r.nextInt(1000))));
                    }
                    final Object v = t.tag(1000 + i);
                    mustRefuse(c, "set " + row + "," + f, () -> {
                        m.rawSet(row, f, v);
                        return null;
                    });
                    m.verify();
                    if (row >= 0) {
                        m.check(row, f);
                    }
                }
                final int row = r.pickInt(20000, 65535, 65536) / Math.max(1, m.fields / 4);
                m.set(row, matrix ? r.nextInt(m.fields) : 0);
                m.verify();
                m.drive(20);
                c.count(matrix ? "matrix" : "store");
                break;
            }
            default: {
                final BiMachine m = new BiMachine(c, 0);
                for (int i = r.nextInt(20); i > 0; i--) {
                    m.step();
                }
                for (int i = 0; i < 6; i++) {
                    final int bad = r.pickInt(-1, -2, MIN, MIN + 1, MAX, MAX - 1, -(1 << 30));
                    final int good = r.nextInt(3);
                    final boolean left = m.mm == null || r.nextBoolean();
                    final int a = left ? bad : good;
                    final int b = left ? good : bad;
                    mustRefuse(c, "put " + a + "," + b, () -> m.o.put(a, b));
                    m.verify();
                    m.step();
                }
                m.verify();
                c.count("bi");
            }
        }
    }

    // ------------------------------------------------------------------ arrays

    private static void arrays(final Case c) throws Throwable {
        final Rng r = c.r;
        final T t = T.ALL[c.index % 10];
        final SortChecks.ArrayLib lib = SortChecks.ArrayLib.of(t);
        final int len = r.pickInt(0, 0, 1, 2, 3, 7, 8, 9, 100);
        final Object a = Array.newInstance(t.cls, len);
        for (int i = 0; i < len; i++) {
            Array.set(a, i, t.tag(i + 1));
        }
        final Object copy = SortChecks.clone(a);
        c.config(t.lib + "Array", "length=" + len);
        for (int k = 0; k < 6; k++) {
            final Object def = t.tag(500 + k);
            final int req = r.pickInt(MIN, MIN + 1, -1, -2, 0, 1, len - 1, len, len + 1, 2 * len + 1, 65537,
                    -(1 << 30), MAX, MAX - 1);
            final int kind = r.nextInt(7);
            c.op("request " + kind, req);
            final Object got = attempt(c, () -> switch (kind) {
                case 0 -> (Object) lib.ensure.invokeExact(a, (Object) req);
                case 1 -> (Object) lib.ensureDef.invokeExact(a, (Object) req, def);
                case 2 -> (Object) lib.entry.invokeExact(a, (Object) req);
                case 3 -> (Object) lib.entryDef.invokeExact(a, (Object) req, def);
                case 4 -> (Object) lib.resize.invokeExact(a, (Object) req);
                case 5 -> (Object) lib.copy.invokeExact(a, (Object) req);
                default -> (Object) lib.create.invokeExact((Object) req);
            });
            c.count("array requests");
            final long need = (long) req + (kind == 2 || kind == 3 ? 1 : 0);
            if (got == REFUSED) {
                c.nontrivial = true;
                if (kind < 4) {
                    c.check(need > len, "a request for " + need + " elements is refused although there are " + len);
                }
                c.check(need < 0 || need > 1 << 20, "a request for " + need + " elements is refused");
            } else {
                c.check(got != null, "null returned");
                final int now = Array.getLength(got);
                c.check(now >= need, now + " elements are returned for a request for " + need);
                if (kind < 4) {
                    c.check(now >= len, "shrunk to " + now);
                    final Object rest = kind % 2 == 1 ? def : t.def();
                    if (now == len) {
                        SortChecks.contents(c, copy, len, got, len, null, "the request");
                    } else {
                        SortChecks.contents(c, copy, len, got, now, rest, "the request");
                    }
                } else if (kind < 6) {
                    c.eq(req, now, "length");
                    SortChecks.contents(c, copy, Math.min(req, len), got, req, t.def(), "the request");
                } else {
                    c.eq(req, now, "length");
                }
            }
            SortChecks.contents(c, copy, len, a, len, null, "the original array after the request");
        }
    }

    private static void calculator(final Case c) throws Throwable {
        final int max = 1 << 29;
        for (int cap = 1; cap > 0; cap <<= 1) {
            for (int threshold : new int[] {0, 1, cap / 2, cap * 3 / 4, cap, max, MAX}) {
                c.op("calculateNewCapacity", cap, threshold);
                final int was = cap;
                final Object o = attempt(c, () ->
                        com.bytefacets.collections.CapacityCalculator.calculateNewCapacity(c, was, threshold));
                if (o == REFUSED) {
                    c.check(cap >= max, "capacity " + cap + " cannot grow");
                } else {
                    final int now = (Integer) o;
                    c.check(now >= cap, "capacity shrinks from " + cap + " to " + now);
                    c.check(now > cap || cap >= max, "capacity stays " + cap);
                }
            }
        }
        c.nontrivial = true;
    }

    // ------------------------------------------------------------------ large

    private static void large(final Ctx x) {
        x.serial("huge array", 1, c -> {
            final byte[] a = {1, 2, 3};
            for (int size : new int[] {(1 << 30) + 1, MAX - 8, MAX - 100}) {
                c.op("ensureSize", size);
                final Object o = attempt(c, () -> com.bytefacets.collections.arrays.ByteArray.ensureSize(a, size));
                if (o != REFUSED) {
                    final byte[] b = (byte[]) o;
                    c.check(b.length >= size, b.length + " elements for a request for " + size);
                    c.check(b[0] == 1 && b[1] == 2 && b[2] == 3 && b[3] == 0 && b[size - 1] == 0, "content");
                    c.count("huge array");
                    c.nontrivial = true;
                }
            }
        });
        x.serial("huge vector", 1, c -> {
            final var v = new com.bytefacets.collections.vector.ByteVector((1 << 30) - 5);
            c.op("append", 1 << 30);
            final int n = (1 << 30) + 5;
            for (int i = 0; i < n; i++) {
                v.append((byte) (i * 31 >> 3));
                if ((i & 0xFFFFF) == 0) {
                    c.tick();
                }
            }
            c.eq(n, v.size(), "size");
            for (int i = 0; i < n; i += i < 1 << 20 || i > n - 100 ? 1 : 1021) {
                if (v.valueAt(i) != (byte) (i * 31 >> 3)) {
                    c.fail("valueAt(" + i + ") is " + v.valueAt(i));
                }
                c.checks++;
            }
            for (int s : new int[] {MAX, MAX - 1}) {
                mustRefuse(c, "ensureSize " + s, () -> {
                    v.ensureSize(s);
                    return null;
                });
            }
            c.eq(n, v.size(), "size after refused requests");
            c.check(v.valueAt(n - 1) == (byte) ((n - 1) * 31 >> 3) && v.valueAt(0) == 0, "content");
            c.count("huge vector");
            c.nontrivial = true;
        });
        x.serial("huge store", 1, c -> {
            final int chunk = c.r.pickInt(1 << 20, 1 << 24);
            final var s = new com.bytefacets.collections.store.ByteChunkStore(10, chunk);
            s.setByte(3, (byte) 3);
            final int last = MAX - 1 - c.r.nextInt(3);
            c.op("set", last);
            final Object o = attempt(c, () -> {
                s.setByte(last, (byte) 7);
                return null;
            });
            if (o != REFUSED) {
                c.eq(7L, (long) s.getByte(last), "last index");
                c.eq(0L, (long) s.getByte(last - 1), "the index before");
                c.check(s.getCapacity() > last, "capacity " + s.getCapacity());
                s.setByte(1 << 30, (byte) 9);
                c.eq(9L, (long) s.getByte(1 << 30), "2^30");
                c.nontrivial = true;
            }
            c.eq(3L, (long) s.getByte(3), "earlier content");
            c.eq(0L, (long) s.getByte(4), "earlier content");
            mustRefuse(c, "set MIN", () -> {
                s.setByte(MIN, (byte) 9);
                return null;
            });
            c.eq(3L, (long) s.getByte(3), "earlier content");
            c.count("huge store");
        });
        // the same size asked for at once: what the constructor makes holds every index it was made for
        x.serial("huge first size", 1, c -> {
            final int size = c.r.pickInt(MAX, MAX - 1, (1 << 30) + (1 << 29) + 1);
            final int chunk = size < MAX - 1 ? 1 << 29 : c.r.pickInt(1 << 20, 1 << 24, 1 << 29);
            c.config("ByteChunkStore", "size=" + size, "chunk=" + chunk);
            final Object o = attempt(c, () -> new com.bytefacets.collections.store.ByteChunkStore(size, chunk));
            if (o != REFUSED) {
                final var s = (com.bytefacets.collections.store.ByteChunkStore) o;
                c.check(s.getCapacity() >= size, "made for " + size + ", capacity " + s.getCapacity());
                final int[] at = {0, 3, chunk - 1, chunk, 1 << 30, size - 2, size - 1};
                for (final int i : at) {
                    c.eq(0L, (long) s.getByte(i), "unset index " + i);
                }
                for (int i = 0; i < at.length; i++) {
                    c.op("set", at[i]);
                    s.setByte(at[i], (byte) (i + 1));
                }
                for (int i = 0; i < at.length; i++) {
                    c.eq(i + 1L, (long) s.getByte(at[i]), "index " + at[i]);
                }
                c.check(s.getCapacity() >= size, "capacity " + s.getCapacity());
                c.nontrivial = true;
            }
            c.count("huge first size");
        });
        x.serial("huge matrix", 1, c -> {
            final int fields = c.r.pickInt(3, 5, 7, 100);
            final var s = new com.bytefacets.collections.store.ByteChunkMatrixStore(10, 1 << 20, fields);
            s.setByte(3, 1, (byte) 3);
            final int last = (MAX - (1 << 21)) / fields;
            c.op("set " + fields, last);
            final Object o = attempt(c, () -> {
                s.setByte(last, fields - 1, (byte) 7);
                return null;
            });
            if (o != REFUSED) {
                c.eq(7L, (long) s.getByte(last, fields - 1), "last index");
                c.eq(0L, (long) s.getByte(last, 0), "the first field");
                c.eq(0L, (long) s.getByte(last - 1, fields - 1), "the row before");
                c.check(s.getCapacity() > last, "capacity " + s.getCapacity());
                c.nontrivial = true;
            }
            c.eq(3L, (long) s.getByte(3, 1), "earlier content");
            c.eq(0L, (long) s.getByte(3, 2), "earlier content");
            mustRefuse(c, "set beyond", () -> {
                s.setByte(MAX / fields + 1, fields - 1, (byte) 9);
                return null;
            });
            c.eq(3L, (long) s.getByte(3, 1), "earlier content");
            c.count("huge matrix");
        });
        x.serial("huge keys", 1, c -> {
            final var o = new com.bytefacets.collections.bi.CompactManyToMany(1, 1, 1, true);
            final int a = 40_000_000 + c.r.nextInt(1000);
            final int b = 20_000_000 + c.r.nextInt(1000);
            c.op("put", a, b);
            o.put(1, 2);
            final int e = o.put(a, b);
            final int f = o.put(a, 2);
            c.eq(e, o.lookupEntry(a, b), "entry");
            c.eq(f, o.lookupEntry(a, 2), "entry");
            c.check(o.contains(1, 2) && !o.contains(1, b) && !o.contains(a - 1, b), "contains");
            final java.util.Set<Integer> seen = new java.util.TreeSet<>();
            for (var it = o.withLeft(a).valueIterator(); it.hasNext(); ) {
                seen.add(it.next());
            }
            c.eq(java.util.Set.of(2, b), seen, "right keys of " + a);
            final var h = new com.bytefacets.collections.queue.ByteHydraDeque(1, 1);
            final int id = 30_000_000 + c.r.nextInt(1000);
            h.addLast(3, (byte) 3);
            h.addLast(id, (byte) 5);
            c.eq(3L, (long) h.removeFirst(3), "list 3");
            c.eq(5L, (long) h.removeLast(id), "list " + id);
            c.eq(0, h.size(), "size");
            c.count("huge keys");
            c.nontrivial = true;
        });
        x.serial("largest deque", x.n(2, 3), c -> {
            final int limit = c.index == 2 ? 1 << 30 : 1 << 29;
            final int cap = c.index == 1 ? 1 << 28 : c.index == 2 ? 1 << 30 : 5;
            final var d = new com.bytefacets.collections.queue.ByteDeque(cap);
            c.config("ByteDeque cap=" + cap);
            c.op("fill");
            int n = 0;
            boolean refused = false;
            while (!refused) {
                try {
                    for (int k = 0; k < 1 << 20; k++) {
                        d.addLast((byte) (n * 31 >> 4));
                        n++;
                    }
                } catch (RuntimeException e) {
                    refused = true;
                }
                c.tick();
                c.check(n <= limit, "more than " + n + " elements");
            }
            c.check(n >= (1 << 29) - 1, "refused after only " + n + " elements");
            for (int round = 0; round < 3; round++) {
                c.eq(n, d.size(), "size");
                c.check(!d.isEmpty(), "isEmpty");
                c.eq((long) (byte) (round * 31 >> 4), (long) d.peekFirst(), "first");
                c.eq((long) (byte) ((n - 1 + round) * 31 >> 4), (long) d.peekLast(), "last");
                mustRefuse(c, "addFirst", () -> {
                    d.addFirst((byte) 1);
                    return null;
                });
                mustRefuse(c, "addLast", () -> {
                    d.addLast((byte) 1);
                    return null;
                });
                final int[] seen = {0, 0};
                final int from = round;
                if (round == 1) {
                    d.forEach(v -> {
                        if (v != (byte) ((seen[0] + from) * 31 >> 4)) {
                            seen[1]++;
                        }
                        seen[0]++;
                    });
                    c.eq(n, seen[0], "elements visited");
                    c.eq(0, seen[1], "wrong elements visited");
                }
                c.tick();
                d.removeFirst();
                d.addLast((byte) ((n + round) * 31 >> 4));
            }
            c.extra += n;
            c.count("largest deque");
            c.nontrivial = true;
        });
        x.serial("largest heap", 1, c -> {
            final int cap = (1 << 29) + 1 + c.r.nextInt(100);
            c.config("ByteHeap", "cap=" + cap);
            final var h = new com.bytefacets.collections.heap.ByteBoolHeap(cap);
            c.op("fill");
            int n = 0;
            boolean refused = false;
            while (!refused) {
                try {
                    for (int k = 0; k < 1 << 20; k++) {
                        h.insert((byte) (n >> 23));
                        n++;
                    }
                } catch (RuntimeException e) {
                    refused = true;
                } catch (OutOfMemoryError e) {
                    c.count("memory exhausted");
                    return;
                }
                c.tick();
            }
            c.check(n >= cap, "refused after only " + n + " elements");
            for (int i = 0; i < 3; i++) {
                c.eq(n, h.getSize(), "size");
                c.check(h.getCapacity() >= n, "capacity " + h.getCapacity() + " for " + n + " elements");
                c.eq(0L, (long) h.getKeyAt(h.peek()), "least key");
                c.eq((long) (byte) (n - 1 >> 23), (long) h.getKeyAt(n - 1), "last key");
                for (int e = 0; e < n; e += 65521) {
                    c.check(h.isValidEntry(e) && (byte) (e >> 23) == h.getKeyAt(e), "entry " + e);
                }
                mustRefuse(c, "insert", () -> h.insert((byte) -1));
            }
            h.removeAt(n - 1);
            c.eq(n - 1, h.insert((byte) (n - 1 >> 23)), "entry of the next insertion");
            c.extra += n;
            c.count("largest heap");
            c.nontrivial = true;
        });
        x.serial("largest hash", x.n(1, 2), c -> {
            final double lf = c.index == 0 ? 1.0 : 0.75;
            final var s = new com.bytefacets.collections.hash.IntIndexedSet(c.index == 0 ? 1 << 29 : 1 << 28, lf);
            c.config("IntIndexedSet", "lf=" + lf);
            c.op("fill");
            int n = 0;
            boolean refused = false;
            while (!refused) {
                try {
                    for (int k = 0; k < 1 << 20; k++) {
                        s.add(n);
                        n++;
                    }
                } catch (RuntimeException e) {
                    refused = true;
                } catch (OutOfMemoryError e) {
                    c.count("memory exhausted");
                    return;
                }
                c.tick();
            }
            c.check(n >= (1 << 29) * lf - 1, "refused after only " + n + " elements");
            for (int i = 0; i < 2; i++) {
                c.eq(n, s.size(), "size");
                for (int k = 0; k < n; k += k < 100000 || k > n - 100000 ? 1 : 32749) {
                    c.eq(k, s.lookupEntry(k), "entry of " + k);
                    c.eq((long) k, (long) s.getKeyAt(k), "key at " + k);
                }
                c.check(!s.containsKey(n) && !s.containsKey(-1), "contains a key that was never added");
                final int next = n + i;
                mustRefuse(c, "add", () -> s.add(next));
            }
            s.remove(7);
            c.eq(7, s.add(-5), "entry of the next addition");
            c.eq(7, s.lookupEntry(-5), "its entry");
            c.extra += n;
            c.count("largest hash");
            c.nontrivial = true;
        });
    }
}
