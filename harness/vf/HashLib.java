package vf;

import java.lang.invoke.MethodHandle;
import java.util.function.Consumer;

/** Boxed access to [K]IndexedSet and [K][V]IndexedMap. */
final class HashLib {
    final T k;
    final T v; // null for a set
    final Class<?> c;
    private final MethodHandle ctor1, ctor2, add, put, remove, removeAt, reserve, free, lookup;
    private final MethodHandle contains, keyAt, get, getOr, valueAt, valueAtOr, putValueAt;
    private final MethodHandle forEach, forEachEntry, forEachValue, iterator, iteratorReuse;
    private final MethodHandle clear, size, isEmpty, capacity, copyFrom, setHash, setEq;

    private HashLib(final T k, final T v) {
        this.k = k;
        this.v = v;
        c = Lib.cls("hash." + k.lib + (v == null ? "IndexedSet" : v.lib + "IndexedMap"));
        ctor1 = Lib.ctor(c, int.class);
        ctor2 = Lib.ctor(c, int.class, double.class);
        add = Lib.m(c, "add", 1);
        remove = Lib.m(c, "remove", k.cls);
        removeAt = Lib.m(c, "removeAt", int.class);
        reserve = Lib.m(c, "removeAtAndReserve", 1);
        free = Lib.m(c, "freeReservedEntry", 1);
        lookup = Lib.m(c, "lookupEntry", 1);
        contains = Lib.m(c, "containsKey", 1);
        keyAt = Lib.m(c, "getKeyAt", 1);
        forEach = Lib.m(c, "forEach", 1);
        forEachEntry = Lib.m(c, "forEachEntry", 1);
        iterator = Lib.m(c, "iterator", 0);
        iteratorReuse = Lib.m(c, "iterator", 1);
        clear = Lib.m(c, "clear", 0);
        size = Lib.m(c, "size", 0);
        isEmpty = Lib.m(c, "isEmpty", 0);
        capacity = Lib.m(c, "capacity", 0);
        copyFrom = Lib.m(c, "copyFrom", c);
        if (v != null) {
            put = Lib.m(c, "put", 2);
            get = Lib.m(c, "get", 1);
            getOr = Lib.m(c, "getOrDefault", 2);
            valueAt = Lib.m(c, "getValueAt", 1);
            valueAtOr = Lib.m(c, "getValueAtOrDefault", 2);
            putValueAt = Lib.m(c, "putValueAt", 2);
            forEachValue = Lib.m(c, "forEachValue", 1);
        } else {
            put = get = getOr = valueAt = valueAtOr = putValueAt = forEachValue = null;
        }
        setHash = Lib.opt(c, "setHashMethod", 1);
        setEq = Lib.opt(c, "setEqMethod", 1);
    }

    static HashLib of(final T k, final T v) {
        return Lib.cached("Hash" + k + v, x -> new HashLib(k, v));
    }

    Object create(final int cap, final double lf) throws Throwable {
        if (lf == 0.75 && (cap & 1) == 0) {
            return (Object) ctor1.invokeExact((Object) cap);
        }
        return (Object) ctor2.invokeExact((Object) cap, (Object) lf);
    }

    Object createExact(final int cap, final double lf) throws Throwable {
        return (Object) ctor2.invokeExact((Object) cap, (Object) lf);
    }

    int add(final Object o, final Object key) throws Throwable {
        return (Integer) (Object) add.invokeExact(o, key);
    }

    int put(final Object o, final Object key, final Object val) throws Throwable {
        return (Integer) (Object) put.invokeExact(o, key, val);
    }

    int remove(final Object o, final Object key) throws Throwable {
        return (Integer) (Object) remove.invokeExact(o, key);
    }

    void removeAt(final Object o, final int e) throws Throwable {
        final Object x = (Object) removeAt.invokeExact(o, (Object) e);
    }

    void reserve(final Object o, final int e) throws Throwable {
        final Object x = (Object) reserve.invokeExact(o, (Object) e);
    }

    void free(final Object o, final int e) throws Throwable {
        final Object x = (Object) free.invokeExact(o, (Object) e);
    }

    int lookup(final Object o, final Object key) throws Throwable {
        return (Integer) (Object) lookup.invokeExact(o, key);
    }

    boolean contains(final Object o, final Object key) throws Throwable {
        return (Boolean) (Object) contains.invokeExact(o, key);
    }

    Object keyAt(final Object o, final int e) throws Throwable {
        return (Object) keyAt.invokeExact(o, (Object) e);
    }

    Object get(final Object o, final Object key) throws Throwable {
        return (Object) get.invokeExact(o, key);
    }

    Object getOr(final Object o, final Object key, final Object d) throws Throwable {
        return (Object) getOr.invokeExact(o, key, d);
    }

    Object valueAt(final Object o, final int e) throws Throwable {
        return (Object) valueAt.invokeExact(o, (Object) e);
    }

    Object valueAtOr(final Object o, final int e, final Object d) throws Throwable {
        return (Object) valueAtOr.invokeExact(o, (Object) e, d);
    }

    void putValueAt(final Object o, final int e, final Object val) throws Throwable {
        final Object x = (Object) putValueAt.invokeExact(o, (Object) e, val);
    }

    void forEach(final Object o, final Consumer<Object> f) throws Throwable {
        final Object x = (Object) forEach.invokeExact(o, Lib.consumer(k, f));
    }

    void forEachEntry(final Object o, final Consumer<Object> f) throws Throwable {
        final Object x = (Object) forEachEntry.invokeExact(o, Lib.intConsumer(f));
    }

    void forEachValue(final Object o, final Consumer<Object> f) throws Throwable {
        final Object x = (Object) forEachValue.invokeExact(o, Lib.consumer(v, f));
    }

    Object iterator(final Object o, final Object reuse) throws Throwable {
        return reuse == null
                ? (Object) iterator.invokeExact(o)
                : (Object) iteratorReuse.invokeExact(o, reuse);
    }

    void clear(final Object o) throws Throwable {
        final Object x = (Object) clear.invokeExact(o);
    }

    int size(final Object o) throws Throwable {
        return (Integer) (Object) size.invokeExact(o);
    }

    boolean isEmpty(final Object o) throws Throwable {
        return (Boolean) (Object) isEmpty.invokeExact(o);
    }

    int capacity(final Object o) throws Throwable {
        return (Integer) (Object) capacity.invokeExact(o);
    }

    int capacityNow(final Object o) {
        try {
            return capacity(o);
        } catch (Throwable t) {
            throw new IllegalStateException(t);
        }
    }

    void copyFrom(final Object o, final Object src) throws Throwable {
        final Object x = (Object) copyFrom.invokeExact(o, src);
    }

    boolean customizable() {
        return setHash != null && setEq != null;
    }

    void setHash(final Object o, final Object h) throws Throwable {
        final Object x = (Object) setHash.invokeExact(o, h);
    }

    void setEq(final Object o, final Object q) throws Throwable {
        final Object x = (Object) setEq.invokeExact(o, q);
    }

    String name() {
        return c.getSimpleName();
    }
}
