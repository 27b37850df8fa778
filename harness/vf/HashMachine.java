package vf;

import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.Map;
import java.util.function.Function;

/** One indexed set or map driven together with its model. */
final class HashMachine {
    // assertion groups
    static final int MEMBER = 1, ENTRY = 2, VALUE = 4, ITER = 8, RESERVE = 16, STRICT = 32;
    static final int ALL = MEMBER | ENTRY | VALUE | ITER | RESERVE;
    static final byte UNUSED = 0, LIVE = 1, RESERVED = 2, FREE = 3;

    final Case c;
    final HashLib lib;
    Object o;
    final int flags;
    Function<Object, Object> canon = Function.identity(); // key identity
    Function<Integer, Object> keyGen;
    int keySpace;
    int cap;
    double lf;
    private double least = 1; // load factor
    private int largest; // capacity not caused by growth
    int capAtStart;
    boolean canonCustom;
    Object hashFn, eqFn;

    // model
    Map<Object, Integer> live = new HashMap<>();
    byte[] state = new byte[64];
    Object[] keyAt = new Object[64];
    Object[] valAt = new Object[64];
    int used; // entries 0..used-1 have been handed out since the start or clear
    int freeCount;
    int reservedCount;
    int peak;
    private int[] liveList = new int[64]; // dense list of live entries
    private int[] livePos = new int[64];
    int liveCount;
    final List<Object> iterators = new ArrayList<>(); // kept iterators for reuse

    HashMachine(final Case c, final HashLib lib, final int flags) {
        this.c = c;
        this.lib = lib;
        this.flags = flags;
    }

    boolean on(final int f) {
        return (flags & f) != 0;
    }

    boolean isMap() {
        return lib.v != null;
    }

    void create(final int cap, final double lf) throws Throwable {
        this.cap = cap;
        this.lf = lf;
        o = lib.create(cap, lf);
        capAtStart = lib.capacity(o);
        least = lf;
        largest = capAtStart;
    }

    /** A far too large capacity would exhaust the memory soon. */
    private void checkCapacity() throws Throwable {
        final double bound = 64 * (largest + (peak + 16) / least);
        final int now = lib.capacity(o);
        if (now > bound) {
            c.fail("capacity " + now + " for at most " + peak + " entries, load factor " + least
                    + " and initial capacity " + cap);
        }
    }

    /** Another one over the same keys. */
    static HashMachine randomLike(final Case c, final HashLib lib, final int flags, final HashMachine a)
            throws Throwable {
        final HashMachine m = new HashMachine(c, lib, flags);
        final Rng r = c.r;
        m.keySpace = a.keySpace;
        m.keyGen = a.keyGen;
        final int cap = r.pickInt(1, 2, 4, 7, 16, 64, 300, 1024);
        final double lf = r.pick(0.75, 1.0, 0.5, 0.2);
        c.config(c.config, "other cap=" + cap, "lf=" + lf);
        m.create(cap, lf);
        return m;
    }

    /** Removal by entry, also for a twin. */
    void byEntry(final int e, final boolean reserve) throws Throwable {
        if (reserve) {
            lib.reserve(o, e);
            modelRemove(e, RESERVED);
        } else {
            lib.removeAt(o, e);
            modelRemove(e, FREE);
        }
    }

    void freeEntry(final int e) throws Throwable {
        c.op("freeReservedEntry", e);
        lib.free(o, e);
        state[e] = FREE;
        freeCount++;
        reservedCount--;
        keyAt[e] = null;
        valAt[e] = null;
    }

    void removed(final int e) {
        modelRemove(e, FREE);
    }

    /** The call (see HashChecks.failOnce) went through although it was armed to fail. */
    void absorb(final Object key, final int call) throws Throwable {
        final Integer was = live.get(canon.apply(key));
        if (call == 0 || call == 4) {
            final int e = lib.lookup(o, key);
            final Object val = isMap() ? lib.valueAt(o, e) : null;
            if (was == null) {
                modelAdd(key, e, val);
            } else {
                valAt[was] = val;
            }
        } else if (call == 1 && was != null) {
            modelRemove(was, FREE);
        }
    }

    /** A random machine over a random class; types.k, types.v fixed by the caller. */
    static HashMachine random(final Case c, final HashLib lib, final int flags) throws Throwable {
        final HashMachine m = new HashMachine(c, lib, flags);
        final Rng r = c.r;
        m.keySpace = r.pickInt(3, 8, 20, 20, 70, 70, 300, 1500);
        final T.Mode mode = r.pick(T.Mode.values());
        final long salt = r.nextLong();
        final T k = lib.k;
        m.keyGen = i -> k.key(i, mode, salt);
        final int cap = r.pickInt(1, 1, 2, 3, 4, 5, 8, 16, 17, 33, 64, 100, 256, 1000);
        final double lf = m.keySpace <= 20 && r.chance(8) ? r.pick(0.02, 0.009, 0.001)
                : r.pick(0.75, 0.75, 0.75, 1.0, 1.0, 0.5, 0.9, 0.3, 0.1, 0.05, 0.6180339887);
        c.config(lib.name(), "cap=" + cap, "lf=" + lf, "keys=" + mode + "/" + m.keySpace);
        m.create(cap, lf);
        return m;
    }

    Object randomKey() {
        return keyGen.apply(c.r.nextInt(keySpace));
    }

    Object absentKey() {
        for (int i = 0; i < 8; i++) {
            final Object k = keyGen.apply(c.r.nextInt(keySpace + keySpace / 2 + 2));
            if (!live.containsKey(canon.apply(k))) {
                return k;
            }
        }
        return null;
    }

    int randomLive() {
        return liveCount == 0 ? -1 : liveList[c.r.nextInt(liveCount)];
    }

    int randomInState(final byte st) {
        if (used == 0) {
            return -1;
        }
        final int from = c.r.nextInt(used);
        for (int i = 0; i < used; i++) {
            final int e = (from + i) % used;
            if (state[e] == st) {
                return e;
            }
        }
        return -1;
    }

    private void ensure(final int e) {
        if (e >= state.length) {
            final int n = Math.max(e + 1, state.length * 2);
            state = Arrays.copyOf(state, n);
            keyAt = Arrays.copyOf(keyAt, n);
            valAt = Arrays.copyOf(valAt, n);
            livePos = Arrays.copyOf(livePos, n);
        }
    }

    // ---- model transitions

    private void modelAdd(final Object key, final int e, final Object val) throws Throwable {
        if (on(ENTRY) || on(RESERVE)) {
            c.check(e >= 0, "add returned entry " + e);
            if (e < used) {
                if (state[e] == RESERVED) {
                    c.fail("entry " + e + " handed out although reserved for " + T.show(keyAt[e]));
                }
                if (on(ENTRY) && state[e] == LIVE) {
                    c.fail("entry " + e + " of " + T.show(keyAt[e]) + " also given to " + T.show(key));
                }
            }
            if (on(ENTRY)) {
                if (freeCount > 0) {
                    c.check(
                            e < used && state[e] == FREE,
                            "entry " + e + " for a new key is not one of the " + freeCount
                                    + " released entries (" + used + " in use so far)");
                } else {
                    c.eq(used, e, "entry of a new key with no released entries");
                }
            }
        } else if (e < 0 || e > used + 1_000_000) {
            c.fail("add returned entry " + e);
        }
        ensure(e);
        if (state[e] == FREE) {
            freeCount--;
            c.count("entry reused");
        }
        if (e >= used) {
            used = e + 1;
            checkCapacity();
        }
        if (state[e] != LIVE) {
            if (liveCount == liveList.length) {
                liveList = Arrays.copyOf(liveList, liveCount * 2);
            }
            liveList[liveCount] = e;
            livePos[e] = liveCount++;
        }
        state[e] = LIVE;
        keyAt[e] = key;
        valAt[e] = val;
        live.put(canon.apply(key), e);
        peak = Math.max(peak, liveCount + reservedCount);
    }

    private void modelRemove(final int e, final byte to) {
        live.remove(canon.apply(keyAt[e]));
        state[e] = to;
        if (to == FREE) {
            freeCount++;
            keyAt[e] = null;
            valAt[e] = null;
        } else {
            reservedCount++;
        }
        final int last = liveList[--liveCount];
        liveList[livePos[e]] = last;
        livePos[last] = livePos[e];
    }

    private void modelClear() {
        live.clear();
        Arrays.fill(state, 0, used, UNUSED);
        Arrays.fill(keyAt, 0, used, null);
        Arrays.fill(valAt, 0, used, null);
        used = 0;
        freeCount = 0;
        reservedCount = 0;
        liveCount = 0;
    }

    private void modelCopy(final HashMachine s) {
        live = new HashMap<>(s.live);
        state = s.state.clone();
        keyAt = s.keyAt.clone();
        valAt = s.valAt.clone();
        used = s.used;
        freeCount = s.freeCount;
        reservedCount = s.reservedCount;
        liveList = s.liveList.clone();
        livePos = s.livePos.clone();
        liveCount = s.liveCount;
        canon = s.canon;
        canonCustom = s.canonCustom;
        hashFn = s.hashFn;
        eqFn = s.eqFn;
        peak = Math.max(peak, s.peak); // the capacity is copied as well
    }

    // ---- operations

    void add(final Object key) throws Throwable {
        c.op("add", key);
        final Integer was = live.get(canon.apply(key));
        final int e = lib.add(o, key);
        if (was == null) {
            modelAdd(key, e, isMap() ? lib.v.def() : null);
        } else if (on(ENTRY)) {
            c.eq(was, e, "entry of a present key on add");
        }
        touch(key);
    }

    void put(final Object key, final Object val) throws Throwable {
        if (!isMap()) {
            add(key);
            return;
        }
        c.op("put", key, val);
        final Integer was = live.get(canon.apply(key));
        final int e = lib.put(o, key, val);
        if (was == null) {
            modelAdd(key, e, val);
        } else {
            if (on(ENTRY)) {
                c.eq(was, e, "entry of a present key on put");
            }
            valAt[was] = val;
        }
        touch(key);
    }

    /** Writes a value where no key lives; keys which get that entry later still start from the default. */
    private void putDeadValue() throws Throwable {
        final int e = c.r.chance(50) ? Math.max(0, randomInState(FREE)) : c.r.nextInt(lib.capacity(o));
        if (e < used && state[e] == LIVE) {
            return;
        }
        final Object val = lib.v.gen(c.r);
        c.op("putValueAt unused", e, val);
        lib.putValueAt(o, e, val);
        if (e < used && state[e] == RESERVED) {
            valAt[e] = val;
        }
        c.count("values written where no key lives");
    }

    void putValueAt() throws Throwable {
        if (isMap() && flags == VALUE && c.r.chance(25)) {
            putDeadValue();
        }
        final int e = randomLive();
        if (e < 0 || !isMap()) {
            return;
        }
        final Object val = lib.v.gen(c.r);
        c.op("putValueAt", e, val);
        lib.putValueAt(o, on(ENTRY) ? e : lib.lookup(o, keyAt[e]), val);
        valAt[e] = val;
        touch(keyAt[e]);
    }

    void remove(final Object key) throws Throwable {
        c.op("remove", key);
        final Integer was = live.get(canon.apply(key));
        final int e = lib.remove(o, key);
        if (was == null) {
            if (on(MEMBER)) {
                c.eq(-1, e, "result of removing an absent key");
            }
        } else {
            if (on(ENTRY)) {
                c.eq(was, e, "entry freed by remove");
            }
            if (on(MEMBER)) {
                c.check(e >= 0, "remove of a present key returned " + e);
            }
            modelRemove(was, FREE);
        }
        touch(key);
    }

    void removeLive() throws Throwable {
        final int e = randomLive();
        if (e >= 0) {
            remove(keyAt[e]);
        }
    }

    void removeAtLive() throws Throwable {
        final int e = randomLive();
        if (e < 0) {
            return;
        }
        final Object key = keyAt[e];
        c.op("removeAt", e);
        lib.removeAt(o, on(ENTRY) ? e : lib.lookup(o, key));
        modelRemove(e, FREE);
        touch(key);
    }

    void reserveLive() throws Throwable {
        final int e = randomLive();
        if (e < 0) {
            return;
        }
        final Object key = keyAt[e];
        c.op("removeAtAndReserve", e);
        lib.reserve(o, e);
        modelRemove(e, RESERVED);
        c.count("reserved");
        touch(key);
        checkReserved(e);
    }

    void freeReserved() throws Throwable {
        final int e = randomInState(RESERVED);
        if (e < 0) {
            return;
        }
        checkReserved(e);
        c.op("freeReservedEntry", e);
        lib.free(o, e);
        state[e] = FREE;
        freeCount++;
        reservedCount--;
        keyAt[e] = null;
        valAt[e] = null;
        c.count("freed reserved");
    }

    private void checkReserved(final int e) throws Throwable {
        if (on(RESERVE)) {
            c.check(sameKey(keyAt[e], lib.keyAt(o, e)), "key at reserved entry " + e + " changed");
            if (isMap()) {
                c.eq(valAt[e], lib.valueAt(o, e), "value at reserved entry " + e);
            }
        }
    }

    /** removeAt or removeAtAndReserve of an entry without a key: nothing happens. */
    void removeInactive() throws Throwable {
        final int limit = lib.capacity(o);
        int e = c.r.nextInt(Math.max(1, Math.min(limit, used + 3)));
        for (int i = 0; i < 6 && e < used && state[e] == LIVE; i++) {
            e = c.r.nextInt(Math.max(1, Math.min(limit, used + 3)));
        }
        if (e >= limit || (e < used && state[e] == LIVE)) {
            return;
        }
        c.count("by-entry removal of " + (e >= used ? "unused" : state[e] == FREE ? "free" : "reserved"));
        if (c.r.nextBoolean()) {
            c.op("removeAt (inactive)", e);
            lib.removeAt(o, e);
        } else {
            c.op("removeAtAndReserve (inactive)", e);
            lib.reserve(o, e);
        }
        if (used <= 64) {
            verify();
        }
    }

    void clear() throws Throwable {
        c.op("clear");
        lib.clear(o);
        modelClear();
        c.count("clear");
        if (on(MEMBER)) {
            c.eq(0, lib.size(o), "size after clear");
        }
    }

    void copyFrom(final HashMachine s) throws Throwable {
        c.op("copyFrom");
        lib.copyFrom(o, s.o);
        modelCopy(s);
        lf = s.lf;
        least = Math.min(least, s.least);
        largest = Math.max(largest, s.largest);
        c.count("copyFrom");
    }

    /** Another monitor of the same instance, for reading only. */
    HashMachine view(final Case d) {
        final HashMachine m = new HashMachine(d, lib, flags);
        m.o = o;
        m.keyGen = keyGen;
        m.keySpace = keySpace;
        m.cap = cap;
        m.lf = lf;
        m.least = least;
        m.largest = largest;
        m.modelCopy(this);
        return m;
    }

    private boolean sameKey(final Object a, final Object b) {
        return a == null ? b == null : a.equals(b);
    }

    /** Cheap checks around one key after an operation. */
    void touch(final Object key) throws Throwable {
        if (on(MEMBER)) {
            c.eq(liveCount, lib.size(o), "size");
            c.check(lib.isEmpty(o) == (liveCount == 0), "isEmpty with size " + liveCount);
        }
        checkKey(key);
        final int e = randomLive();
        if (e >= 0) {
            checkKey(keyAt[e]);
        }
    }

    void checkKey(final Object key) throws Throwable {
        final Integer e = live.get(canon.apply(key));
        if (on(MEMBER)) {
            final boolean has = lib.contains(o, key);
            c.check(has == (e != null), "containsKey(" + T.show(key) + ") is " + has);
            final int l = lib.lookup(o, key);
            c.check(e == null ? l == -1 : l >= 0, "lookupEntry(" + T.show(key) + ") is " + l);
        }
        if (e != null) {
            if (on(ENTRY)) {
                c.eq(e, lib.lookup(o, key), "lookupEntry(" + T.show(key) + ")");
                final Object k = lib.keyAt(o, e);
                c.check(sameKey(keyAt[e], k), "getKeyAt(" + e + ") is " + T.show(k)
                        + " instead of " + T.show(keyAt[e]));
            }
            if (isMap() && on(VALUE)) {
                final Object v = valAt[e];
                c.eq(v, lib.get(o, key), "get(" + T.show(key) + ")");
                c.eq(v, lib.getOr(o, key, lib.v.tag(c.events)), "getOrDefault(" + T.show(key) + ")");
                final int at = on(ENTRY) ? e : lib.lookup(o, key);
                c.eq(v, lib.valueAt(o, at), "getValueAt(" + at + ")");
                c.eq(v, lib.valueAtOr(o, at, lib.v.tag(c.events)), "getValueAtOrDefault(" + at + ")");
            }
        } else if (isMap() && on(VALUE)) {
            final Object d = lib.v.gen(c.r);
            final int out = c.r.pickInt(-1, -2, Integer.MIN_VALUE, Integer.MAX_VALUE, 1 << 29);
            c.eq(d, lib.valueAtOr(o, out, d), "getValueAtOrDefault(" + out + ")");
            c.eq(d, lib.getOr(o, key, d), "getOrDefault of an absent key");
            try {
                final Object got = lib.get(o, key);
                c.fail("get of absent key " + T.show(key) + " returned " + T.show(got));
            } catch (RuntimeException x) {
                if (x instanceof Violation) {
                    throw x;
                }
                c.check(
                        x.getClass().getName().endsWith("KeyNotFoundException"),
                        "get of an absent key threw " + x);
            }
        }
    }

    /** Complete comparison with the model. */
    void verify() throws Throwable {
        c.count("full comparisons");
        if (on(MEMBER)) {
            c.eq(liveCount, lib.size(o), "size");
            c.check(lib.isEmpty(o) == (liveCount == 0), "isEmpty");
        }
        for (int i = 0; i < liveCount; i++) {
            checkKey(keyAt[liveList[i]]);
        }
        final int probes = Math.min(keySpace + 5, 40);
        for (int i = 0; i < probes; i++) {
            checkKey(keyGen.apply(i < 10 ? keySpace + i : c.r.nextInt(keySpace)));
        }
        if (on(RESERVE)) {
            for (int e = 0; e < used; e++) {
                if (state[e] == RESERVED) {
                    checkReserved(e);
                }
            }
        }
        if (on(MEMBER) || on(ITER)) {
            traverse(c.r.nextInt(4));
        }
    }

    void beginVisit() {
        visited = new HashMap<>();
        visits = 0;
    }

    private Map<Object, Integer> visited;
    private int visits;

    private void visitEntry(final int e) {
        visits++;
        if (visits > liveAtStart) {
            c.fail("traversal delivers more than the " + liveAtStart + " elements (entry " + e + ")");
        }
        c.check(e >= 0 && e < used && startLive[e], "traversal delivers entry " + e
                + " which holds no key");
        if (!on(ENTRY) && !on(ITER)) {
            return;
        }
        if (visited.put(e, 1) != null) {
            c.fail("traversal delivers entry " + e + " twice");
        }
    }

    private int liveAtStart;
    private boolean[] startLive;

    private void startTraversal() {
        liveAtStart = liveCount;
        startLive = new boolean[used + 1];
        for (int i = 0; i < liveCount; i++) {
            startLive[liveList[i]] = true;
        }
        beginVisit();
    }

    private void endTraversal(final String what) {
        c.eq(liveAtStart, visits, "elements delivered by " + what);
    }

    /** kind: 0 entry iterator, 1 forEach, 2 forEachEntry, 3 forEachValue */
    private int nestAt = -1; // the visit of the traversal at which another one is made

    /** Another full traversal while one is under way. */
    private void nest() {
        if (visits != nestAt) {
            return;
        }
        nestAt = -1;
        Lib.quietly(() -> {
            final int[] n = {0};
            final int kind = c.r.nextInt(isMap() ? 4 : 3);
            switch (kind) {
                case 0:
                    for (final Object it = lib.iterator(o, null); Lib.EntryIt.next(it); n[0]++) {
                        visitedBefore(Lib.EntryIt.current(it));
                    }
                    break;
                case 1:
                    lib.forEach(o, k -> n[0]++);
                    break;
                case 2:
                    lib.forEachEntry(o, e -> n[0]++);
                    break;
                default:
                    lib.forEachValue(o, v -> n[0]++);
            }
            c.eq(liveCount, n[0], "elements delivered by a traversal within another");
            c.count("traversals within traversals");
        });
    }

    private void visitedBefore(final int e) {
        c.check(e >= 0 && e < used && state[e] == LIVE, "a traversal within another delivers " + e);
    }

    void traverse(final int kind) throws Throwable {
        startTraversal();
        nestAt = on(ITER) && liveCount > 0 && liveCount < 500 && c.r.chance(4) ? 1 + c.r.nextInt(liveCount) : -1;
        switch (isMap() || kind < 3 ? kind : 1) {
            case 0:
                {
                    final Object it = iter();
                    while (Lib.EntryIt.next(it)) {
                        visitEntry(Lib.EntryIt.current(it));
                        nest();
                    }
                    endTraversal("iterator");
                    c.check(!Lib.EntryIt.next(it), "iterator continues after its end");
                    removeAtEnd(it);
                    break;
                }
            case 1:
                {
                    final Map<Object, Integer> keys = new HashMap<>();
                    lib.forEach(
                            o,
                            k -> {
                                visits++;
                                final Integer e = live.get(canon.apply(k));
                                c.check(e != null, "forEach delivers absent key " + T.show(k));
                                c.check(
                                        keys.put(canon.apply(k), 1) == null,
                                        "forEach delivers " + T.show(k) + " twice");
                                nest();
                            });
                    endTraversal("forEach");
                    break;
                }
            case 2:
                lib.forEachEntry(o, e -> {
                    visitEntry((Integer) e);
                    nest();
                });
                endTraversal("forEachEntry");
                break;
            default:
                {
                    final Map<Object, Integer> vals = new HashMap<>();
                    for (int i = 0; i < liveCount; i++) {
                        vals.merge(valAt[liveList[i]], 1, Integer::sum);
                    }
                    lib.forEachValue(
                            o,
                            v -> {
                                visits++;
                                if (on(VALUE) || on(ITER)) {
                                    final Integer n = vals.get(v);
                                    c.check(n != null, "forEachValue delivers " + T.show(v)
                                            + " too often");
                                    if (n == 1) {
                                        vals.remove(v);
                                    } else {
                                        vals.put(v, n - 1);
                                    }
                                }
                                nest();
                            });
                    endTraversal("forEachValue");
                }
        }
        c.count("traversals");
    }

    private Object iter() throws Throwable {
        if (!iterators.isEmpty() && c.r.nextBoolean()) {
            final Object it = iterators.get(c.r.nextInt(iterators.size()));
            if (c.r.nextBoolean()) {
                Lib.EntryIt.reset(it);
                return it;
            }
            final Object again = lib.iterator(o, it);
            c.count("iterator reused");
            return again;
        }
        final Object it = lib.iterator(o, null);
        if (iterators.size() < 3) {
            iterators.add(it);
        } else {
            iterators.set(c.r.nextInt(3), it);
        }
        return it;
    }

    /** At its end an iterator stands on no element, so there is nothing to remove. */
    private void removeAtEnd(final Object it) throws Throwable {
        if (!c.r.chance(3)) {
            return;
        }
        c.op("iterator.remove at the end");
        try {
            Lib.EntryIt.remove(it);
        } catch (RuntimeException x) {
            c.count("remove at the end refused");
        }
        c.eq(liveCount, lib.size(o), "size after iterator.remove at the end");
        if (c.r.nextBoolean()) {
            c.check(!Lib.EntryIt.next(it), "iterator continues after its end");
        }
        if (c.r.chance(4)) {
            verify();
        }
    }

    /** Before its first element an iterator refuses to remove, or takes out the first one. */
    private void removeEarly(final Object it) throws Throwable {
        c.op("iterator.remove before the first next");
        final int size = lib.size(o);
        try {
            Lib.EntryIt.remove(it);
        } catch (RuntimeException x) {
            c.eq(size, lib.size(o), "size after a refused iterator.remove");
            Lib.EntryIt.reset(it);
            return;
        }
        if (lib.size(o) != size) {
            final int e = Lib.EntryIt.current(it);
            c.check(e >= 0 && e < used && state[e] == LIVE, "iterator stands on entry " + e);
            modelRemove(e, FREE);
            startTraversal();
        }
    }

    /** Calls under a traversal standing on a live entry, which the traversal must not notice. */
    private void changeNothing(final int e) throws Throwable {
        final Object key = c.r.nextBoolean() ? keyAt[e] : randomKey();
        final Integer at = live.get(canon.apply(key));
        c.op("change nothing with", key);
        if (at == null) {
            c.eq(-1, lib.remove(o, key), "removal of an absent key during a traversal");
            c.eq(-1, lib.lookup(o, key), "lookupEntry of an absent key during a traversal");
            c.count("absent keys removed while traversing");
            return;
        }
        c.eq(at, lib.add(o, key), "add of a present key during a traversal");
        c.eq(at, lib.lookup(o, key), "lookupEntry during a traversal");
        if (isMap()) {
            lib.put(o, key, valAt[at]);
            lib.putValueAt(o, at, valAt[at]);
        }
        final Object other = lib.iterator(o, null);
        for (int i = c.r.nextInt(liveCount); i >= 0; i--) {
            c.check(Lib.EntryIt.next(other), "a second iterator ends early");
        }
        c.count("calls changing nothing while traversing");
    }

    /** Traversal during which the elements visited are removed with some probability. */
    void traverseRemoving() throws Throwable {
        final int kind = c.r.nextInt(isMap() ? 5 : 4);
        final int p = c.r.pickInt(1, 2, 2, 3, 10);
        if (kind == 4) {
            distinctValues();
        }
        startTraversal();
        final int[] removed = {0};
        switch (kind) {
            case 0:
            case 1:
                {
                    c.op("iterate and remove 1/" + p);
                    final Object it = iter();
                    if (c.r.chance(4)) { // before the first next
                        removeEarly(it);
                    }
                    while (Lib.EntryIt.next(it)) {
                        final int e = Lib.EntryIt.current(it);
                        visitEntry(e);
                        if (c.r.chance(p)) {
                            c.op("iterator.remove", e);
                            final Object key = keyAt[e];
                            Lib.EntryIt.remove(it);
                            modelRemove(e, FREE);
                            removed[0]++;
                            checkKey(key);
                            if (c.r.chance(4)) {
                                try {
                                    Lib.EntryIt.remove(it);
                                    c.fail("a second iterator.remove of entry " + e + " succeeded");
                                } catch (IllegalStateException x) {
                                    c.count("second remove refused");
                                }
                            }
                        } else if (c.r.chance(20)) {
                            changeNothing(e);
                        }
                    }
                    endTraversal("iterator with removals");
                    removeAtEnd(it);
                    break;
                }
            case 2:
                c.op("forEachEntry and remove 1/" + p);
                lib.forEachEntry(
                        o,
                        x -> {
                            final int e = (Integer) x;
                            visitEntry(e);
                            if (c.r.chance(p)) {
                                removeInCallback(e);
                                removed[0]++;
                            }
                        });
                endTraversal("forEachEntry with removals");
                break;
            case 4:
                {
                    c.op("forEachValue and remove 1/" + p);
                    // tells the current element where its value is the only one of its kind
                    final Map<Object, Integer> by = new HashMap<>();
                    for (int i = 0; i < liveCount; i++) {
                        by.merge(valAt[liveList[i]], liveList[i], (a, b) -> -1);
                    }
                    final Map<Object, Integer> left = new HashMap<>();
                    for (int i = 0; i < liveCount; i++) {
                        left.merge(valAt[liveList[i]], 1, Integer::sum);
                    }
                    lib.forEachValue(
                            o,
                            v -> {
                                visits++;
                                final Integer n = left.get(v);
                                c.check(n != null, "forEachValue delivers " + T.show(v) + " too often");
                                if (n == 1) {
                                    left.remove(v);
                                } else {
                                    left.put(v, n - 1);
                                }
                                final int e = by.get(v);
                                if (e >= 0 && c.r.chance(p)) {
                                    removeInCallback(e);
                                    removed[0]++;
                                }
                            });
                    endTraversal("forEachValue with removals");
                    break;
                }
            default:
                c.op("forEach and remove 1/" + p);
                lib.forEach(
                        o,
                        k -> {
                            final Integer e = live.get(canon.apply(k));
                            c.check(e != null, "forEach delivers absent key " + T.show(k));
                            visitEntry(e);
                            if (c.r.chance(p)) {
                                removeInCallback(e);
                                removed[0]++;
                            }
                        });
                endTraversal("forEach with removals");
        }
        c.count("removed while traversing", removed[0]);
        verify();
    }

    /** Gives the elements values which tell them apart, as far as the type has so many. */
    private void distinctValues() throws Throwable {
        for (int i = 0; i < liveCount; i++) {
            final int e = liveList[i];
            final Object val = lib.v.tag(i);
            lib.putValueAt(o, on(ENTRY) ? e : lib.lookup(o, keyAt[e]), val);
            valAt[e] = val;
        }
    }

    private void removeInCallback(final int e) {
        try {
            final Object key = keyAt[e];
            c.op("  remove current", e);
            if (c.r.nextBoolean()) {
                lib.remove(o, key);
            } else {
                lib.removeAt(o, on(ENTRY) ? e : lib.lookup(o, key));
            }
            modelRemove(e, FREE);
        } catch (RuntimeException | Error x) {
            throw x;
        } catch (Throwable x) {
            throw new IllegalStateException(x);
        }
    }

    /** An outside change in the middle of a traversal makes the iterator fail. */
    interface Change {
        void run() throws Throwable;
    }

    void expectFailFast(final String what, final Change change) throws Throwable {
        final Object it = iter();
        final int steps = c.r.nextInt(liveCount + 1);
        for (int i = 0; i < steps; i++) {
            c.check(Lib.EntryIt.next(it), "iterator ends after " + i + " of " + liveCount);
        }
        c.op("change during iteration: " + what, steps);
        change.run();
        try {
            final boolean b = Lib.EntryIt.next(it);
            c.fail("iterator.next returned " + b + " after changes (" + what + ")");
        } catch (java.util.ConcurrentModificationException x) {
            verify();
        }
    }

    void failFast(final HashMachine other) throws Throwable {
        if (liveCount == 0) {
            return;
        }
        final Object it = iter();
        final int steps = c.r.nextInt(liveCount + 1);
        for (int i = 0; i < steps; i++) {
            c.check(Lib.EntryIt.next(it), "iterator ends after " + i + " of " + liveCount);
        }
        final int kind = c.r.nextInt(7);
        c.op("change during iteration", kind, steps);
        switch (kind) {
            case 0:
                {
                    final Object k = absentKey();
                    if (k == null || live.containsKey(canon.apply(k))) {
                        return;
                    }
                    put(k, isMap() ? lib.v.gen(c.r) : null);
                    break;
                }
            case 1:
                removeLive();
                break;
            case 2:
                removeAtLive();
                break;
            case 3:
                if (on(RESERVE)) {
                    reserveLive();
                } else {
                    removeLive();
                }
                break;
            case 4:
                clear();
                if (c.r.nextBoolean()) { // as many changes as the iterator has seen, or others
                    final int n = c.r.nextInt(2 * keySpace + 2);
                    for (int i = 0; i < n; i++) {
                        put(randomKey(), isMap() ? lib.v.gen(c.r) : null);
                    }
                }
                break;
            case 5: { // through another iterator
                final Object it2 = c.r.nextBoolean() ? lib.iterator(o, null) : iter();
                if (it2 == it) {
                    return;
                }
                final int n = 1 + c.r.nextInt(liveCount);
                for (int i = 0; i < n; i++) {
                    c.check(Lib.EntryIt.next(it2), "iterator ends after " + i + " of " + liveCount);
                }
                final int e = Lib.EntryIt.current(it2);
                Lib.EntryIt.remove(it2);
                c.check(e >= 0 && e < used && state[e] == LIVE, "iterator stands on entry " + e);
                modelRemove(e, FREE);
                c.count("removal through another iterator");
                break;
            }
            default:
                if (other == null) {
                    return;
                }
                copyFrom(other);
        }
        c.count("changes under an iterator");
        if (c.r.nextBoolean()) {
            try {
                final boolean b = Lib.EntryIt.next(it);
                c.fail("iterator.next returned " + b + " after a change (kind " + kind + ")");
            } catch (java.util.ConcurrentModificationException x) {
                c.count("fail-fast next");
            }
        } else if (steps > 0) {
            try {
                Lib.EntryIt.remove(it);
                c.fail("iterator.remove worked after a change (kind " + kind + ")");
            } catch (java.util.ConcurrentModificationException x) {
                c.count("fail-fast remove");
            }
        }
        verify();
        startTraversal();
        Lib.EntryIt.reset(it);
        while (Lib.EntryIt.next(it)) {
            visitEntry(Lib.EntryIt.current(it));
        }
        endTraversal("iterator after reset");
    }

    /** Everything observable, for comparison around a failing call. */
    String digest() throws Throwable {
        final List<String> parts = new ArrayList<>();
        for (int i = 0; i < liveCount; i++) {
            final int e = liveList[i];
            parts.add(e + "=" + T.show(lib.keyAt(o, e)) + (isMap() ? "/" + T.show(lib.valueAt(o, e)) : ""));
        }
        return lib.size(o) + ":" + parts;
    }

    Map<Object, Boolean> liveObjects() {
        final Map<Object, Boolean> m = new IdentityHashMap<>();
        for (int e = 0; e < used; e++) {
            if (state[e] == LIVE || state[e] == RESERVED) {
                m.put(keyAt[e], true);
                m.put(valAt[e], true);
            }
        }
        return m;
    }
}
