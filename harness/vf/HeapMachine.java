package vf;

import java.util.ArrayList;
import java.util.Arrays;
import java.util.Comparator;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;
import java.util.function.Function;

/** One heap driven together with its model. */
final class HeapMachine {
    static final int ORDER = 1, ENTRY = 2, DEFAULTS = 4, CONTENT = 8;
    static final int ALL = ORDER | ENTRY | DEFAULTS | CONTENT;

    /** A comparator of the heap with the order it has to follow. */
    static final class Order {
        final String name;
        final Object lib;
        final Comparator<Object> oracle;

        Order(final String name, final Object lib, final Comparator<Object> oracle) {
            this.name = name;
            this.lib = lib;
            this.oracle = oracle;
        }
    }

    final Case c;
    final HeapLib lib;
    final int flags;
    Object o;
    final List<Order> orders;
    Order order;
    Function<Integer, Object> keyGen;
    int keySpace;
    int cap;
    Object defKey, defVal;

    // model
    boolean[] live = new boolean[64];
    Object[] key = new Object[64];
    Object[] val = new Object[64];
    int used;
    int size;
    int freeCount;
    int peak;
    private int[] list = new int[64];
    private int[] pos = new int[64];
    private TreeMap<Object, Integer> sorted;

    HeapMachine(final Case c, final HeapLib lib, final int flags) {
        this.c = c;
        this.lib = lib;
        this.flags = flags;
        orders = orders(lib.k);
        defKey = lib.k.def();
        defVal = lib.v.def();
        order(orders.get(0));
    }

    boolean on(final int f) {
        return (flags & f) != 0;
    }

    private static List<Order> orders(final T k) {
        return Lib.cached("orders" + k, x -> {
            final List<Order> l = new ArrayList<>();
            final Class<?> t = Lib.typeClass(k);
            final Comparator<Object> asc = k.asc();
            l.add(new Order("Asc", Lib.constant(t, "Asc"), asc));
            l.add(new Order("Desc", Lib.constant(t, "Desc"), (a, b) -> asc.compare(b, a)));
            final Comparator<Object> abs = k.abs();
            if (abs != null) {
                final boolean s = k == T.STRING;
                l.add(new Order("AbsAsc", Lib.constant(t, s ? "AscInsensitive" : "AbsAsc"), abs));
                l.add(new Order("AbsDesc", Lib.constant(t, s ? "DescInsensitive" : "AbsDesc"),
                        (a, b) -> abs.compare(b, a)));
            }
            final Comparator<Object> mod = (a, b) -> Integer.compare(small(a), small(b));
            l.add(new Order("custom mod 3", Lib.cmp(k, mod), mod));
            l.add(new Order("custom constant", Lib.cmp(k, (a, b) -> 0), (a, b) -> 0));
            final Comparator<Object> big =
                    (a, b) -> asc.compare(a, b) < 0 ? Integer.MAX_VALUE
                            : asc.compare(a, b) > 0 ? Integer.MIN_VALUE : 0;
            l.add(new Order("custom reversed extreme", Lib.cmp(k, big), (a, b) -> asc.compare(b, a)));
            l.add(new Order("custom bits", Lib.cmp(k, k.fine()), k.fine()));
            return l;
        });
    }

    private static int small(final Object o) {
        return o == null ? 0 : (o.equals(-0.0) || o.equals(-0.0f) ? 0 : Math.floorMod(o.hashCode(), 3));
    }

    void order(final Order q) {
        order = q;
        sorted = new TreeMap<>(q.oracle);
        for (int i = 0; i < size; i++) {
            sorted.merge(key[list[i]], 1, Integer::sum);
        }
    }

    static HeapMachine random(final Case c, final HeapLib lib, final int flags) throws Throwable {
        final HeapMachine m = new HeapMachine(c, lib, flags);
        final Rng r = c.r;
        m.keySpace = r.pickInt(1, 2, 3, 6, 20, 100, 1000);
        final T.Mode mode = r.pick(T.Mode.SEQ, T.Mode.NEG, T.Mode.RANDOM, T.Mode.EXTREME);
        final long salt = r.nextLong();
        m.keyGen = keys(lib.k, mode, salt);
        m.cap = r.pickInt(0, 1, 1, 2, 3, 5, 8, 16, 31, 100);
        c.config(lib.c.getSimpleName(), "cap=" + m.cap, "keys=" + mode + "/" + m.keySpace);
        m.o = lib.create(m.cap);
        return m;
    }

    /** Mutually comparable keys, special ones included. */
    static Function<Integer, Object> keys(final T k, final T.Mode mode, final long salt) {
        switch (k) {
            case FLOAT:
            case DOUBLE:
                if (mode == T.Mode.EXTREME) {
                    return i -> k == T.FLOAT
                            ? (Object) (i < T.FSPECIAL.length ? T.FSPECIAL[i] : i * 0.5f)
                            : (Object) (i < T.DSPECIAL.length ? T.DSPECIAL[i] : i * 0.5);
                }
                return i -> k.key(i, mode, salt);
            case GENERIC:
                switch ((int) (salt & 3)) {
                    case 0:
                        return i -> i == 0 && mode == T.Mode.EXTREME ? null
                                : T.STRING.key(i, T.Mode.RANDOM, salt);
                    case 1:
                        return i -> i == 0 && mode == T.Mode.EXTREME ? null
                                : new T.Coll(mode == T.Mode.NEG ? -i : i, i & 1);
                    default:
                        return i -> i == 0 && mode == T.Mode.EXTREME ? null
                                : (Object) Long.valueOf((Long) T.LONG.key(i, mode, salt));
                }
            case STRING:
                return i -> mode == T.Mode.NEG
                        ? ((i & 1) == 0 ? "Key" : "kEY") + i / 2
                        : k.key(i, mode, salt);
            default:
                return i -> k.key(i, mode, salt);
        }
    }

    Object randomKey() {
        return keyGen.apply(c.r.nextInt(keySpace));
    }

    int randomLive() {
        return size == 0 ? -1 : list[c.r.nextInt(size)];
    }

    // ---- model

    private void ensure(final int e) {
        if (e >= live.length) {
            final int n = Math.max(e + 1, live.length * 2);
            live = Arrays.copyOf(live, n);
            key = Arrays.copyOf(key, n);
            val = Arrays.copyOf(val, n);
            pos = Arrays.copyOf(pos, n);
        }
    }

    private void modelInsert(final int e, final Object k, final Object v) {
        c.check(e >= 0 && e < used + 1_000_000, "insert returned entry " + e);
        if (on(ENTRY)) {
            if (e < used && live[e]) {
                c.fail("insert gave entry " + e + " to " + T.show(k) + " although it belongs to "
                        + T.show(key[e]));
            }
            if (freeCount > 0) {
                c.check(e < used, "entry " + e + " is new although " + freeCount + " were released");
            } else {
                c.eq(used, e, "entry of a key inserted with no released entries");
            }
        } else if (e < used && live[e]) {
            c.fail("insert gave entry " + e + " twice");
        }
        ensure(e);
        if (e < used) {
            freeCount--;
            c.count("entry reused");
        } else {
            freeCount += e - used;
            used = e + 1;
        }
        live[e] = true;
        key[e] = k;
        val[e] = v;
        if (size == list.length) {
            list = Arrays.copyOf(list, size * 2);
        }
        list[size] = e;
        pos[e] = size++;
        sorted.merge(k, 1, Integer::sum);
        peak = Math.max(peak, size);
    }

    private void unsort(final Object k) {
        final Integer n = sorted.get(k);
        if (n == 1) {
            sorted.remove(k);
        } else {
            sorted.put(k, n - 1);
        }
    }

    void modelRemove(final int e) {
        live[e] = false;
        unsort(key[e]);
        key[e] = null;
        val[e] = null;
        freeCount++;
        final int last = list[--size];
        list[pos[e]] = last;
        pos[last] = pos[e];
    }

    private void modelClear() {
        Arrays.fill(live, false);
        Arrays.fill(key, null);
        Arrays.fill(val, null);
        used = 0;
        size = 0;
        freeCount = 0;
        sorted.clear();
    }

    // ---- operations

    int insert(final Object k, final boolean withValue, final Object v) throws Throwable {
        c.op(withValue ? "insert" : "insert (no value)", k, withValue ? v : Case.NONE);
        final int e = withValue ? lib.insert(o, k, v) : lib.insert(o, k);
        if (!withValue && on(DEFAULTS)) {
            eqNum(defVal, lib.valueAt(o, e), "value of an element inserted without one");
        }
        modelInsert(e, k, withValue ? v : lib.valueAt(o, e));
        touch(e);
        return e;
    }

    void insertRandom() throws Throwable {
        insert(randomKey(), c.r.nextInt(4) > 0, lib.v.gen(c.r));
    }

    void removeAt(final int e) throws Throwable {
        c.op("removeAt", e, key[e]);
        lib.removeAt(o, e);
        modelRemove(e);
        if (on(DEFAULTS)) {
            eqNum(defKey, lib.keyAt(o, e), "getKeyAt of removed entry " + e);
            eqNum(defVal, lib.valueAt(o, e), "getValueAt of removed entry " + e);
        }
        touch(e);
    }

    void removeRandom() throws Throwable {
        final int e = randomLive();
        if (e >= 0) {
            removeAt(e);
        }
    }

    void poll() throws Throwable {
        if (size == 0) {
            return;
        }
        final int e = lib.peek(o);
        checkPeek(e);
        if (e < used && e >= 0 && live[e]) {
            removeAt(e);
        }
    }

    void resetKey() throws Throwable {
        final int e = randomLive();
        if (e < 0) {
            return;
        }
        resetKey(e, c.r.chance(8) ? key[e] : randomKey());
    }

    void resetKey(final int e, final Object k) throws Throwable {
        c.op("resetKey", e, k);
        lib.resetKey(o, e, k);
        unsort(key[e]);
        key[e] = k;
        sorted.merge(k, 1, Integer::sum);
        c.count("keys reset");
        touch(e);
    }

    /** Visits all entries, removing some of them and changing the keys of others on the way. */
    void visitChanging() throws Throwable {
        final int p = c.r.pickInt(1, 2, 5);
        c.op("forEachEntry, removing or resetting 1/" + p);
        c.count("entries changed while visited");
        final boolean[] seen = new boolean[used];
        final int was = size;
        final int[] n = {0};
        lib.forEachEntry(o, e -> Lib.quietly(() -> {
            n[0]++;
            c.check(e >= 0 && e < seen.length && live[e], "forEachEntry delivers entry " + e
                    + " which is not live");
            c.check(!seen[e], "forEachEntry delivers entry " + e + " twice");
            seen[e] = true;
            if (c.r.chance(p)) {
                if (c.r.nextInt(3) > 0) {
                    removeAt(e);
                } else {
                    resetKey(e, randomKey());
                }
            }
        }));
        c.eq(was, n[0], "entries delivered by forEachEntry");
    }

    void setValueAt() throws Throwable {
        final int e = randomLive();
        if (e < 0) {
            return;
        }
        final Object v = lib.v.gen(c.r);
        c.op("setValueAt", e, v);
        lib.setValueAt(o, e, v);
        val[e] = v;
        touch(e);
    }

    void setComparator() throws Throwable {
        final Order q = orders.get(c.r.nextInt(orders.size()));
        c.op("setComparator " + q.name);
        lib.setCmp(o, q.lib);
        order(q);
        c.check(lib.getCmp(o) == q.lib, "getComparator does not return the comparator set");
        c.count(size > 1 ? "comparator changed while holding keys" : "comparator changed");
        touch(-1);
    }

    void setDefaults() throws Throwable {
        final boolean k = c.r.nextBoolean();
        final Object d = k ? randomKey() : lib.v.gen(c.r);
        c.op(k ? "setDefaultKey" : "setDefaultValue", d);
        if (size > 0) {
            boolean thrown = false;
            try {
                if (k) {
                    lib.setDefKey(o, d);
                } else {
                    lib.setDefVal(o, d);
                }
            } catch (RuntimeException e) {
                thrown = true;
            }
            if (on(DEFAULTS)) {
                c.check(thrown, "default changed although the heap holds " + size + " elements");
                c.count("default refused");
                verify();
            }
            return;
        }
        if (k) {
            lib.setDefKey(o, d);
            defKey = d;
        } else {
            lib.setDefVal(o, d);
            defVal = d;
        }
        c.count("default set");
        if (on(DEFAULTS)) {
            verify();
        }
    }

    void clear() throws Throwable {
        c.op("clear");
        lib.clear(o);
        modelClear();
        c.count("clear");
        c.eq(0, lib.size(o), "size after clear");
        if (on(DEFAULTS)) {
            verify();
        }
    }

    /** removeAt and resetKey of an entry that is not live. */
    void removeInactive() throws Throwable {
        final int capacity = lib.capacity(o);
        int e = c.r.pickInt(-1, Integer.MIN_VALUE, Integer.MAX_VALUE, capacity, capacity + 5, -used - 1,
                c.r.nextInt(used + 3), c.r.nextInt(used + 3), c.r.nextInt(used + 3),
                c.r.nextInt(capacity + 1));
        if (e >= 0 && e < used && live[e]) {
            return;
        }
        final boolean reset = c.r.chance(3);
        c.op(reset ? "resetKey (inactive)" : "removeAt (inactive)", e);
        String got = "no exception";
        try {
            if (reset) {
                lib.resetKey(o, e, randomKey());
            } else {
                lib.removeAt(o, e);
            }
        } catch (RuntimeException x) {
            got = x.getClass().getSimpleName();
        }
        final boolean out = e < 0 || e >= capacity;
        c.count(out ? "out-of-range removal" : e >= used ? "never-used removal" : "released removal");
        c.eq(out ? "RangeCheckException" : "InvalidEntryException", got,
                (reset ? "resetKey" : "removeAt") + " of entry " + e + " which is not live");
        verify();
    }

    // ---- checks

    private void eqNum(final Object expected, final Object actual, final String what) {
        c.checks++;
        if (expected instanceof Number x
                && actual instanceof Number y
                && x.getClass() == y.getClass()
                && x.doubleValue() == 0
                && y.doubleValue() == 0) {
            return;
        }
        c.eq(expected, actual, what);
    }

    private void checkPeek(final int e) {
        c.check(e >= 0 && e < used && live[e], "peek returned entry " + e + " which is not live");
        if (on(ORDER)) {
            final Object least = sorted.firstKey();
            c.check(order.oracle.compare(key[e], least) <= 0,
                    "peek returned entry " + e + " with key " + T.show(key[e]) + " although "
                            + T.show(least) + " is present (" + order.name + ")");
        }
    }

    void touch(final int e) throws Throwable {
        c.eq(size, lib.size(o), "getSize");
        if (size > 0) {
            checkPeek(lib.peek(o));
        }
        if (e >= 0) {
            checkEntry(e);
        }
        final int x = randomLive();
        if (x >= 0) {
            checkEntry(x);
        }
    }

    private void checkEntry(final int e) throws Throwable {
        final boolean is = e < used && live[e];
        if (on(ENTRY)) {
            c.check(lib.isValid(o, e) == is, "isValidEntry(" + e + ") is " + !is);
        }
        if (is) {
            if (on(ENTRY | CONTENT)) {
                same(key[e], lib.keyAt(o, e), "getKeyAt(" + e + ")");
                c.eq(val[e], lib.valueAt(o, e), "getValueAt(" + e + ")");
                c.eq(val[e], lib.valueAtOr(o, e, lib.v.tag(c.events)), "getValueAtOrDefault(" + e + ")");
            }
        } else if (on(DEFAULTS) && e < lib.capacity(o)) {
            eqNum(defKey, lib.keyAt(o, e), "getKeyAt(" + e + ") which is not live");
            eqNum(defVal, lib.valueAt(o, e), "getValueAt(" + e + ") which is not live");
            eqNum(defVal, lib.valueAtOr(o, e, lib.v.tag(c.events)), "getValueAtOrDefault(" + e + ")");
        }
    }

    /** Another monitor of the same instance, for reading only. */
    HeapMachine view(final Case d) {
        final HeapMachine m = new HeapMachine(d, lib, flags);
        m.o = o;
        m.keyGen = keyGen;
        m.keySpace = keySpace;
        m.cap = cap;
        m.defKey = defKey;
        m.defVal = defVal;
        m.live = live.clone();
        m.key = key.clone();
        m.val = val.clone();
        m.used = used;
        m.size = size;
        m.freeCount = freeCount;
        m.peak = peak;
        m.list = list.clone();
        m.pos = pos.clone();
        m.order(order);
        return m;
    }

    private void same(final Object a, final Object b, final String what) {
        c.eq(a, b, what);
    }

    void verify() throws Throwable {
        c.count("full comparisons");
        c.eq(size, lib.size(o), "getSize");
        c.check(lib.isEmpty(o) == (size == 0), "isEmpty with size " + size);
        if (size > 0) {
            checkPeek(lib.peek(o));
        } else {
            boolean thrown = false;
            try {
                lib.peek(o);
            } catch (RuntimeException x) {
                thrown = true;
            }
            c.check(thrown, "peek of an empty heap succeeds");
        }
        final int capacity = lib.capacity(o);
        final int limit = Math.min(capacity, Math.max(used + 4, 40));
        for (int e = 0; e < Math.min(limit, capacity); e++) {
            checkEntry(e);
        }
        if (on(DEFAULTS)) {
            if (capacity > limit) {
                for (int i = 0; i < 5; i++) {
                    checkEntry(limit + c.r.nextInt(capacity - limit));
                }
                checkEntry(capacity - 1);
            }
            eqNum(defKey, lib.getDefKey(o), "getDefaultKey");
            eqNum(defVal, lib.getDefVal(o), "getDefaultValue");
            final Object d = lib.v.gen(c.r);
            for (int e : new int[] {-1, Integer.MIN_VALUE, Integer.MAX_VALUE, capacity, capacity + 1}) {
                c.eq(d, lib.valueAtOr(o, e, d), "getValueAtOrDefault(" + e + ") out of range");
            }
        }
        if (on(ENTRY)) {
            for (int e : new int[] {-1, Integer.MIN_VALUE, Integer.MAX_VALUE, capacity, capacity + 1,
                    used}) {
                c.check(!lib.isValid(o, e), "isValidEntry(" + e + ") is true");
            }
            final boolean[] seen = new boolean[used];
            final int[] n = {0};
            final int[] inner = {0};
            final int nestAt = size > 0 && c.r.chance(4) ? 1 + c.r.nextInt(size) : -1;
            lib.forEachEntry(o, e -> {
                n[0]++;
                c.check(e >= 0 && e < used && live[e], "forEachEntry delivers entry " + e
                        + " which is not live");
                c.check(!seen[e], "forEachEntry delivers entry " + e + " twice");
                seen[e] = true;
                if (n[0] == nestAt) {
                    Lib.quietly(() -> lib.forEachEntry(o, x -> inner[0]++));
                    c.eq(size, inner[0], "entries delivered by a forEachEntry within another");
                    c.count("traversals within traversals");
                }
            });
            c.eq(size, n[0], "entries delivered by forEachEntry");
            for (int i = 0; i < 6; i++) {
                final Object k = i < 3 && size > 0 ? key[randomLive()] : randomKey();
                final int e = lib.firstEntry(o, k);
                final boolean has = sorted.containsKey(k);
                if (has && isZero(k) && !holdsExactly(k)) {
                    continue; // only the zero of the other sign is there: either answer is right
                }
                c.check(has == (e != -1), "getFirstEntry(" + T.show(k) + ") is " + e);
                c.check(has == lib.containsKey(o, k), "containsKey(" + T.show(k) + ") is " + !has);
                if (e != -1) {
                    c.check(e >= 0 && e < used && live[e], "getFirstEntry gives entry " + e
                            + " which is not live");
                    c.check(order.oracle.compare(k, key[e]) == 0, "getFirstEntry(" + T.show(k)
                            + ") gives entry " + e + " with key " + T.show(key[e]));
                }
            }
        }
    }

    private static boolean isZero(final Object k) {
        return (k instanceof Float f && f == 0) || (k instanceof Double d && d == 0);
    }

    private boolean holdsExactly(final Object k) {
        for (int e = 0; e < used; e++) {
            if (live[e] && k.equals(key[e])) {
                return true;
            }
        }
        return false;
    }

    /** Removes the peeked entry until the heap is empty. */
    void drain() throws Throwable {
        c.op("drain", size);
        Object last = null;
        boolean first = true;
        while (size > 0) {
            final int e = lib.peek(o);
            checkPeek(e);
            final Object k = lib.keyAt(o, e);
            if (on(ORDER) && !first) {
                c.check(order.oracle.compare(last, k) <= 0, "drained " + T.show(last) + " before "
                        + T.show(k) + " (" + order.name + ")");
            }
            first = false;
            last = k;
            c.op("removeAt", e);
            lib.removeAt(o, e);
            modelRemove(e);
            c.tick();
            c.eq(size, lib.size(o), "getSize");
        }
        c.count("drained");
        verify();
    }

    Map<Object, Boolean> liveObjects() {
        final Map<Object, Boolean> m = new IdentityHashMap<>();
        for (int i = 0; i < size; i++) {
            m.put(key[list[i]], true);
            m.put(val[list[i]], true);
        }
        return m;
    }
}
