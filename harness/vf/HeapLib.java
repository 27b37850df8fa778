package vf;

import java.lang.invoke.MethodHandle;
import java.util.function.IntConsumer;

/** Boxed access to [K][V]Heap. */
final class HeapLib {
    final T k;
    final T v;
    final Class<?> c;
    private final MethodHandle ctor, insert1, insert2, removeAt, resetKey, keyAt, valueAt, valueAtOr;
    private final MethodHandle setValueAt, peek, getSize, isEmpty, capacity, forEachEntry, isValid;
    private final MethodHandle firstEntry, containsKey, setCmp, getCmp, setDefKey, getDefKey;
    private final MethodHandle setDefVal, getDefVal, clear;

    private HeapLib(final T k, final T v) {
        this.k = k;
        this.v = v;
        c = Lib.cls("heap." + k.lib + v.lib + "Heap");
        ctor = Lib.ctor(c, int.class);
        insert1 = Lib.m(c, "insert", 1);
        insert2 = Lib.m(c, "insert", 2);
        removeAt = Lib.m(c, "removeAt", 1);
        resetKey = Lib.m(c, "resetKey", 2);
        keyAt = Lib.m(c, "getKeyAt", 1);
        valueAt = Lib.m(c, "getValueAt", 1);
        valueAtOr = Lib.m(c, "getValueAtOrDefault", 2);
        setValueAt = Lib.m(c, "setValueAt", 2);
        peek = Lib.m(c, "peek", 0);
        getSize = Lib.m(c, "getSize", 0);
        isEmpty = Lib.m(c, "isEmpty", 0);
        capacity = Lib.m(c, "getCapacity", 0);
        forEachEntry = Lib.m(c, "forEachEntry", 1);
        isValid = Lib.m(c, "isValidEntry", 1);
        firstEntry = Lib.m(c, "getFirstEntry", 1);
        containsKey = Lib.m(c, "containsKey", 1);
        setCmp = Lib.m(c, "setComparator", 1);
        getCmp = Lib.m(c, "getComparator", 0);
        setDefKey = Lib.m(c, "setDefaultKey", 1);
        getDefKey = Lib.m(c, "getDefaultKey", 0);
        setDefVal = Lib.m(c, "setDefaultValue", 1);
        getDefVal = Lib.m(c, "getDefaultValue", 0);
        clear = Lib.m(c, "clear", 0);
    }

    static HeapLib of(final T k, final T v) {
        return Lib.cached("Heap" + k + v, x -> new HeapLib(k, v));
    }

    Object create(final int cap) throws Throwable {
        return (Object) ctor.invokeExact((Object) cap);
    }

    int insert(final Object o, final Object key) throws Throwable {
        return (Integer) (Object) insert1.invokeExact(o, key);
    }

    int insert(final Object o, final Object key, final Object val) throws Throwable {
        return (Integer) (Object) insert2.invokeExact(o, key, val);
    }

    void removeAt(final Object o, final int e) throws Throwable {
        final Object x = (Object) removeAt.invokeExact(o, (Object) e);
    }

    void resetKey(final Object o, final int e, final Object key) throws Throwable {
        final Object x = (Object) resetKey.invokeExact(o, (Object) e, key);
    }

    Object keyAt(final Object o, final int e) throws Throwable {
        return (Object) keyAt.invokeExact(o, (Object) e);
    }

    Object valueAt(final Object o, final int e) throws Throwable {
        return (Object) valueAt.invokeExact(o, (Object) e);
    }

    Object valueAtOr(final Object o, final int e, final Object d) throws Throwable {
        return (Object) valueAtOr.invokeExact(o, (Object) e, d);
    }

    void setValueAt(final Object o, final int e, final Object val) throws Throwable {
        final Object x = (Object) setValueAt.invokeExact(o, (Object) e, val);
    }

    int peek(final Object o) throws Throwable {
        return (Integer) (Object) peek.invokeExact(o);
    }

    int size(final Object o) throws Throwable {
        return (Integer) (Object) getSize.invokeExact(o);
    }

    boolean isEmpty(final Object o) throws Throwable {
        return (Boolean) (Object) isEmpty.invokeExact(o);
    }

    int capacity(final Object o) throws Throwable {
        return (Integer) (Object) capacity.invokeExact(o);
    }

    void forEachEntry(final Object o, final IntConsumer f) throws Throwable {
        final Object x = (Object) forEachEntry.invokeExact(o, (Object) f);
    }

    boolean isValid(final Object o, final int e) throws Throwable {
        return (Boolean) (Object) isValid.invokeExact(o, (Object) e);
    }

    int firstEntry(final Object o, final Object key) throws Throwable {
        return (Integer) (Object) firstEntry.invokeExact(o, key);
    }

    boolean containsKey(final Object o, final Object key) throws Throwable {
        return (Boolean) (Object) containsKey.invokeExact(o, key);
    }

    void setCmp(final Object o, final Object cmp) throws Throwable {
        final Object x = (Object) setCmp.invokeExact(o, cmp);
    }

    Object getCmp(final Object o) throws Throwable {
        return (Object) getCmp.invokeExact(o);
    }

    void setDefKey(final Object o, final Object key) throws Throwable {
        final Object x = (Object) setDefKey.invokeExact(o, key);
    }

    Object getDefKey(final Object o) throws Throwable {
        return (Object) getDefKey.invokeExact(o);
    }

    void setDefVal(final Object o, final Object val) throws Throwable {
        final Object x = (Object) setDefVal.invokeExact(o, val);
    }

    Object getDefVal(final Object o) throws Throwable {
        return (Object) getDefVal.invokeExact(o);
    }

    void clear(final Object o) throws Throwable {
        final Object x = (Object) clear.invokeExact(o);
    }
}
