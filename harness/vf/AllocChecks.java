package vf;

import java.lang.invoke.MethodHandle;
import java.lang.reflect.Method;
import java.util.ArrayList;
import java.util.List;

/** C36: operations which need no more room create no objects (counted in the instrumented classes). */
final class AllocChecks {
    private AllocChecks() {}

    static void register() {
        Main.CHECKS.put("C36", AllocChecks::c36);
    }

    /** Counts the objects created in a phase, once the first cycle has made the room. */
    private static final class Watch {
        final Case c;
        final long[] count = Steps.counter();
        boolean measured;
        private String phase;
        private long from;

        Watch(final Case c) {
            this.c = c;
        }

        void begin(final String name) {
            c.op(name, measured ? 1 : 0);
            phase = name;
            from = count[1];
        }

        /** A few objects are allowed for whatever is set up once, or for each traversal as a whole. */
        void end(final int ops) {
            end(ops, 6 + ops / 16);
        }

        /** What treats all elements at once may create a few objects, however many there are. */
        void endAll(final int ops) {
            end(ops, 6 + 6 * ops);
        }

        private void end(final int ops, final int allowed) {
            final long created = count[1] - from;
            if (!measured) {
                c.count("objects created while making room", created);
                return;
            }
            c.checks++;
            c.extra += ops;
            c.count("operations without new objects", ops);
            c.check(created <= allowed, phase + ": " + created + " objects created by " + ops
                    + " operations (or elements) with room enough");
        }

        /** An instance consists of a few arrays and objects, however many elements it holds. */
        void holds(final Object o, final T k, final T v, final int allowed) {
            if (!measured) {
                return;
            }
            final Walk w = new Walk(o);
            int own = w.objects;
            if (!k.isRef() && (v == null || !v.isRef())) {
                own += w.stored.size();
            }
            c.check(own <= allowed, "consists of " + own + " objects besides its elements");
            c.count("objects of full instances", own);
        }
    }

    private static void hash(final Case c) throws Throwable {
        final HashLib lib = HashChecks.lib(c.index);
        final int n = lib.k == T.BYTE ? 60 : 100 + c.r.nextInt(100);
        final T.Mode mode = lib.k.isRef() || c.r.nextBoolean() ? T.Mode.SEQ : T.Mode.RANDOM;
        final long seed = c.r.nextLong();
        c.config(lib.name(), n, mode);
        final java.util.LinkedHashSet<Object> distinct = new java.util.LinkedHashSet<>();
        for (int i = 0; distinct.size() < 2 * n && i < 100_000; i++) {
            final Object k = lib.k.key(i, mode, seed);
            if (!k.equals(-0.0f) && !k.equals(-0.0) && k.equals(k)) {
                distinct.add(k);
            }
        }
        final Object[] keys = distinct.toArray();
        c.check(keys.length == 2 * n, "keys");
        final Object v = lib.v == null ? null : lib.v.tag(1);
        final Object o = lib.createExact(4, 0.75);
        final Object p = lib.createExact(4, 0.75);
        final Object it = lib.iterator(o, null);
        final Watch w = new Watch(c);
        for (int cycle = 0; cycle < 3; cycle++) {
            w.measured = cycle > 0;
            w.begin("add");
            for (int i = 0; i < n; i++) {
                lib.add(o, keys[i]);
            }
            w.end(n);
            w.holds(o, lib.k, lib.v, 24);
            w.begin("look up");
            for (int i = 0; i < 2 * n; i++) {
                lib.lookup(o, keys[i]);
                lib.contains(o, keys[i]);
                lib.size(o);
                lib.isEmpty(o);
            }
            w.end(n);
            w.begin("read keys");
            for (int i = 0; i < n; i++) {
                lib.keyAt(o, i);
            }
            w.end(n);
            if (v != null) {
                w.begin("write and read values");
                for (int i = 0; i < n; i++) {
                    lib.put(o, keys[i], v);
                    lib.get(o, keys[i]);
                    lib.getOr(o, keys[n + i], v);
                    lib.putValueAt(o, i, v);
                    lib.valueAt(o, i);
                    lib.valueAtOr(o, n + i, v);
                }
                w.end(n);
                w.begin("traverse values");
                lib.forEachValue(o, x -> { });
                w.end(n);
            }
            w.begin("traverse");
            lib.forEach(o, x -> { });
            w.end(n);
            w.begin("traverse entries");
            lib.forEachEntry(o, x -> { });
            w.end(n);
            w.begin("iterate with the same iterator");
            lib.iterator(o, it);
            while (Lib.EntryIt.next(it)) {
                Lib.EntryIt.current(it);
            }
            w.end(n);
            w.begin("start an iterator again and again");
            for (int i = 0; i < n; i++) {
                lib.iterator(o, it);
                Lib.EntryIt.next(it);
            }
            w.end(n);
            w.begin("copy");
            for (int i = 0; i < n; i++) {
                lib.copyFrom(p, o);
            }
            w.endAll(n);
            w.begin("remove and add");
            for (int i = 0; i < n; i++) {
                lib.remove(o, keys[i]);
                lib.remove(o, keys[i]);
                lib.add(o, keys[i]);
            }
            w.end(n);
            w.begin("remove by entry and add");
            for (int i = 0; i < n; i++) {
                lib.removeAt(o, i);
                lib.removeAt(o, i);
                lib.add(o, keys[n + i]);
            }
            w.end(n);
            w.begin("reserve, free and add");
            for (int i = 0; i < n; i++) {
                lib.reserve(o, i);
                lib.free(o, i);
                lib.add(o, keys[i]);
            }
            w.end(n);
            w.begin("remove by the iterator");
            lib.iterator(o, it);
            for (int i = 0; Lib.EntryIt.next(it); i++) {
                if ((i & 1) == 0) {
                    Lib.EntryIt.remove(it);
                }
            }
            w.end(n);
            w.begin("clear and add");
            for (int i = 0; i < n; i++) {
                lib.clear(o);
                lib.add(o, keys[i]);
            }
            w.endAll(n);
            lib.clear(o);
        }
        c.nontrivial = true;
        c.count("sets and maps");
    }

    private static void heap(final Case c) throws Throwable {
        final HeapLib lib = HeapChecks.lib(c.index);
        final int n = 100 + c.r.nextInt(100);
        final T.Mode mode = lib.k.isRef() || c.r.nextBoolean() ? T.Mode.SEQ : T.Mode.RANDOM;
        final long seed = c.r.nextLong();
        c.config(lib.c.getSimpleName(), n, mode);
        final Object[] keys = new Object[n];
        for (int i = 0; i < n; i++) {
            keys[i] = lib.k.key(i, mode, seed);
        }
        final Object v = lib.v.tag(1);
        final Object o = lib.create(2);
        final Object[] orders = {Lib.constant(Lib.typeClass(lib.k), "Asc"), Lib.constant(Lib.typeClass(lib.k), "Desc")};
        final Watch w = new Watch(c);
        for (int cycle = 0; cycle < 3; cycle++) {
            w.measured = cycle > 0;
            w.begin("set defaults");
            for (int i = 0; i < n; i++) {
                lib.setDefKey(o, keys[0]);
                lib.setDefVal(o, v);
                lib.getDefKey(o);
                lib.getDefVal(o);
            }
            w.end(n);
            w.begin("insert");
            for (int i = 0; i < n; i++) {
                if ((i & 1) == 0) {
                    lib.insert(o, keys[i]);
                } else {
                    lib.insert(o, keys[i], v);
                }
            }
            w.end(n);
            w.holds(o, lib.k, lib.v, 24);
            w.begin("read");
            for (int i = 0; i < n; i++) {
                lib.peek(o);
                lib.size(o);
                lib.isEmpty(o);
                lib.capacity(o);
                lib.keyAt(o, i);
                lib.valueAt(o, i);
                lib.valueAtOr(o, i + n, v);
                lib.isValid(o, i);
                lib.isValid(o, n + i);
                lib.getCmp(o);
            }
            w.end(n);
            w.begin("look for keys");
            for (int i = 0; i < n; i++) {
                lib.firstEntry(o, keys[i]);
                lib.containsKey(o, keys[i]);
            }
            w.end(n);
            w.begin("change keys and values");
            for (int i = 0; i < n; i++) {
                lib.resetKey(o, i, keys[(i + 7) % n]);
                lib.setValueAt(o, i, v);
            }
            w.end(n);
            w.begin("change the comparator");
            for (int i = 0; i < n; i++) {
                lib.setCmp(o, orders[i & 1]);
            }
            w.endAll(n);
            w.begin("traverse");
            lib.forEachEntry(o, x -> { });
            w.end(n);
            w.begin("remove and insert");
            for (int i = 0; i < n; i++) {
                lib.removeAt(o, i);
                lib.insert(o, keys[i], v);
            }
            w.end(n);
            w.begin("poll");
            for (int i = 0; i < n; i++) {
                lib.removeAt(o, lib.peek(o));
            }
            w.end(n);
            w.begin("clear and insert");
            for (int i = 0; i < n; i++) {
                lib.insert(o, keys[i]);
                lib.clear(o);
            }
            w.endAll(n);
        }
        c.nontrivial = true;
        c.count("heaps");
    }

    private static void queues(final Case c) throws Throwable {
        final T t = T.ALL[c.index % 10];
        final int n = 100 + c.r.nextInt(100);
        final int lists = 1 + c.r.nextInt(20);
        c.config(t.lib, n, lists);
        final Object v = t.tag(1);
        final Class<?> d = Lib.cls("queue." + t.lib + "Deque");
        final MethodHandle[] add = {Lib.m(d, "addFirst", 1), Lib.m(d, "addLast", 1)};
        final MethodHandle[] remove = {Lib.m(d, "removeFirst", 0), Lib.m(d, "removeLast", 0)};
        final MethodHandle[] peek = {Lib.m(d, "peekFirst", 0), Lib.m(d, "peekLast", 0)};
        final MethodHandle forEach = Lib.m(d, "forEach", 1);
        final MethodHandle clear = Lib.m(d, "clear", 0);
        final MethodHandle size = Lib.m(d, "size", 0);
        final Class<?> h = Lib.cls("queue." + t.lib + "HydraDeque");
        final MethodHandle[] hadd = {Lib.m(h, "addFirst", 2), Lib.m(h, "addLast", 2)};
        final MethodHandle[] hremove = {Lib.m(h, "removeFirst", 1), Lib.m(h, "removeLast", 1)};
        final MethodHandle[] iterator = {Lib.m(h, "iterator", 1), Lib.m(h, "reverseIterator", 1)};
        final MethodHandle[] again = {Lib.m(h, "iterator", 2), Lib.m(h, "reverseIterator", 2)};
        final MethodHandle hclear = Lib.m(h, "clear", 0);
        final MethodHandle hsize = Lib.m(h, "size", 1);
        final Lib.It its = Lib.It.of(t);
        final Object consumer = Lib.consumer(t, x -> { });
        final Object o = Lib.ctor(d, int.class).invoke((Object) 2);
        final Object q = Lib.ctor(h, int.class, int.class).invoke((Object) 2, (Object) 2);
        final Object[] reused = {iterator[0].invoke(q, (Object) 0), iterator[1].invoke(q, (Object) 0)};
        final Watch w = new Watch(c);
        Object z;
        for (int cycle = 0; cycle < 3; cycle++) {
            w.measured = cycle > 0;
            w.begin("add to a deque");
            for (int i = 0; i < n; i++) {
                z = add[i >> 1 & 1].invoke(o, v);
            }
            w.end(n);
            w.holds(o, t, null, 12);
            w.begin("look at a deque");
            for (int i = 0; i < n; i++) {
                z = peek[i & 1].invoke(o);
                z = size.invoke(o);
            }
            w.end(n);
            w.begin("traverse a deque");
            z = forEach.invoke(o, consumer);
            w.end(n);
            w.begin("go round in a deque");
            for (int i = 0; i < 3 * n; i++) {
                z = remove[i / n & 1].invoke(o);
                z = add[1 - (i / n & 1)].invoke(o, v);
            }
            w.end(n);
            w.begin("remove from a deque");
            for (int i = 0; i < n; i++) {
                z = remove[i & 1].invoke(o);
            }
            w.end(n);
            w.begin("clear a deque");
            for (int i = 0; i < n; i++) {
                z = add[1].invoke(o, v);
                z = clear.invoke(o);
            }
            w.endAll(n);
            w.begin("add to lists");
            for (int i = 0; i < n; i++) {
                z = hadd[i >> 1 & 1].invoke(q, (Object) (i % lists), v);
            }
            w.end(n);
            w.holds(q, t, null, 32);
            w.begin("sizes of lists");
            for (int i = 0; i < n; i++) {
                z = hsize.invoke(q, (Object) i);
            }
            w.end(n);
            w.begin("traverse lists with the same iterator");
            for (int i = 0; i < n; i++) {
                z = again[i & 1].invoke(q, (Object) (i % lists), reused[i & 1]);
                while (its.hasNext(reused[i & 1])) {
                    z = its.next(reused[i & 1]);
                }
            }
            w.end(n);
            w.begin("move between lists");
            for (int i = 0; i < n; i++) {
                z = hremove[i & 1].invoke(q, (Object) (i % lists));
                z = hadd[i & 1].invoke(q, (Object) ((i + 1) % lists), v);
                z = hremove[1 - (i & 1)].invoke(q, (Object) ((i + 1) % lists));
                z = hadd[i & 1].invoke(q, (Object) (i % lists), v);
            }
            w.end(n);
            w.begin("clear the lists");
            z = hclear.invoke(q);
            for (int i = 0; i < n; i++) {
                z = hadd[1].invoke(q, (Object) 0, v);
                z = hclear.invoke(q);
            }
            w.endAll(n);
        }
        c.nontrivial = true;
        c.count("deques");
    }

    private static void arrays(final Case c) throws Throwable {
        final T t = T.ALL[c.index % 10];
        final int n = 100 + c.r.nextInt(100);
        final int fields = 1 + c.r.nextInt(5);
        c.config(t.lib, n, fields);
        final Object v = t.tag(1);
        final Class<?> k = Lib.cls("vector." + t.lib + "Vector");
        final MethodHandle append = Lib.m(k, "append", 1);
        final MethodHandle valueAt = Lib.m(k, "valueAt", 1);
        final MethodHandle ensureSize = Lib.m(k, "ensureSize", 1);
        final MethodHandle forEach = Lib.m(k, "forEach", 1);
        final MethodHandle clear = Lib.m(k, "clear", 0);
        final Class<?> a = Lib.cls("arrays." + t.lib + "Array");
        final MethodHandle ensure = Lib.m(a, "ensureEntry", 2);
        final MethodHandle ensureWith = Lib.m(a, "ensureEntry", 3);
        final SeqChecks.StoreLib s = SeqChecks.StoreLib.of(t);
        final int chunk = c.r.pickInt(2, 4, 64);
        final Object o = Lib.ctor(k, int.class).invoke((Object) 1);
        final Object store = s.ctor.invoke((Object) 1, (Object) chunk);
        final Object matrix = s.mctor.invoke((Object) 1, (Object) chunk, (Object) fields);
        final Object consumer = Lib.consumer(t, x -> { });
        Object array = t.newArray(1);
        final Watch w = new Watch(c);
        Object z;
        for (int cycle = 0; cycle < 3; cycle++) {
            w.measured = cycle > 0;
            w.begin("append");
            for (int i = 0; i < n; i++) {
                z = append.invoke(o, v);
                z = valueAt.invoke(o, (Object) i);
                z = ensureSize.invoke(o, (Object) i);
            }
            w.end(n);
            w.begin("traverse a vector");
            z = forEach.invoke(o, consumer);
            w.end(n);
            w.holds(o, t, null, 12);
            w.begin("clear a vector");
            for (int i = 0; i < n; i++) {
                z = clear.invoke(o);
                z = append.invoke(o, v);
            }
            z = clear.invoke(o);
            w.endAll(n);
            w.begin("ensure entries");
            for (int i = 0; i < n; i++) {
                array = (i & 1) == 0 ? ensure.invoke(array, (Object) i) : ensureWith.invoke(array, (Object) i, v);
            }
            w.end(n);
            w.begin("write and read a store");
            for (int i = 0; i < n; i++) {
                z = s.set.invoke(store, (Object) i, v);
                z = s.get.invoke(store, (Object) i);
                z = s.get.invoke(store, (Object) (i + 100_000));
            }
            w.end(n);
            w.holds(store, t, null, 24 + 4 * n);
            w.begin("write and read a matrix store");
            for (int i = 0; i < n; i++) {
                z = s.mset.invoke(matrix, (Object) i, (Object) (i % fields), v);
                z = s.mget.invoke(matrix, (Object) i, (Object) (i % fields));
                z = s.mget.invoke(matrix, (Object) (i + 100_000), (Object) 0);
            }
            w.end(n);
        }
        c.nontrivial = true;
        c.count("vectors, arrays and stores");
    }

    private static void bi(final Case c) throws Throwable {
        final boolean many = c.r.nextBoolean();
        final int n = 100 + c.r.nextInt(100);
        final int span = 1 + c.r.nextInt(n);
        final Class<?> k = Lib.cls("bi.Compact" + (many ? "ManyToMany" : "OneToMany"));
        c.config(k.getSimpleName(), n, span);
        final MethodHandle put = Lib.m(k, "put", 2);
        final MethodHandle contains = Lib.m(k, "contains", 2);
        final MethodHandle lookup = Lib.m(k, "lookupEntry", 2);
        final MethodHandle remove = Lib.m(k, "remove", 2);
        final MethodHandle removeAt = Lib.m(k, "removeAt", 1);
        final MethodHandle reserve = Lib.m(k, "removeAtAndReserve", 1);
        final MethodHandle free = Lib.m(k, "freeReservedEntry", 1);
        final MethodHandle leftAt = Lib.m(k, "getLeftAt", 1);
        final MethodHandle rightAt = Lib.m(k, "getRightAt", 1);
        final MethodHandle size = Lib.m(k, "size", 0);
        final MethodHandle[] with = many ? new MethodHandle[] {Lib.m(k, "withLeft", 1), Lib.m(k, "withRight", 1)}
                : new MethodHandle[] {Lib.m(k, "withLeft", 1)};
        final Class<?> map = Lib.cls("bi.Mapping");
        final MethodHandle count = Lib.m(map, "count", 0);
        final MethodHandle[] each = {Lib.m(map, "forEachValue", 1), Lib.m(map, "forEachEntry", 1)};
        final MethodHandle[] iterator = {Lib.m(map, "valueIterator", 0), Lib.m(map, "entryIterator", 0)};
        final MethodHandle forEachEntry = Lib.m(k, "forEachEntry", 1);
        final Lib.It its = Lib.It.of(T.INT);
        final Object consumer = Lib.intConsumer(x -> { });
        final Object o = Lib.ctor(k).invoke();
        final Watch w = new Watch(c);
        Object z;
        for (int cycle = 0; cycle < 3; cycle++) {
            w.measured = cycle > 0;
            w.begin("put");
            for (int i = 0; i < n; i++) {
                z = put.invoke(o, (Object) (i % span), (Object) i);
            }
            w.end(n);
            w.begin("look up");
            for (int i = 0; i < n; i++) {
                z = contains.invoke(o, (Object) i, (Object) i);
                z = lookup.invoke(o, (Object) (i % span), (Object) i);
                z = leftAt.invoke(o, z);
                z = rightAt.invoke(o, (Object) i);
                z = size.invoke(o);
            }
            w.end(n);
            w.holds(o, T.INT, null, 60);
            w.begin("navigate");
            for (int i = 0; i < n; i++) {
                final MethodHandle m = with[i % with.length];
                z = count.invoke(m.invoke(o, (Object) i));
            }
            w.end(n);
            w.begin("navigate with consumers");
            for (int i = 0; i < n; i++) {
                final MethodHandle m = with[i % with.length];
                z = each[0].invoke(m.invoke(o, (Object) i), consumer);
                z = each[1].invoke(m.invoke(o, (Object) i), consumer);
            }
            w.endAll(n);
            w.begin("navigate with iterators");
            for (int i = 0; i < n; i++) {
                final Object it = iterator[i >> 1 & 1].invoke(with[i % with.length].invoke(o, (Object) i));
                while (its.hasNext(it)) {
                    z = its.next(it);
                }
            }
            w.end(n);
            w.begin("traverse");
            z = forEachEntry.invoke(o, consumer);
            w.end(n);
            w.begin("remove and put");
            for (int i = 0; i < n; i++) {
                z = remove.invoke(o, (Object) (i % span), (Object) i);
                z = remove.invoke(o, (Object) (i % span), (Object) i);
                z = put.invoke(o, (Object) (i % span), (Object) i);
                z = removeAt.invoke(o, (Object) i);
                z = put.invoke(o, (Object) (i % span), (Object) i);
                final Object e = z;
                z = reserve.invoke(o, e);
                z = free.invoke(o, e);
                z = put.invoke(o, (Object) (i % span), (Object) i);
            }
            w.end(n);
            w.begin("remove");
            for (int i = 0; i < n; i++) {
                z = remove.invoke(o, (Object) (i % span), (Object) i);
            }
            w.end(n);
        }
        c.nontrivial = true;
        c.count("bidirectional collections");
    }

    private static void sort(final Case c) throws Throwable {
        final SortChecks.SortLib lib = SortChecks.lib(c.index);
        final int n = c.r.pickInt(5, 20, 100, 1000);
        final long seed = c.r.nextLong();
        c.config(lib.k.lib + lib.v.lib, n);
        final Object cmp = Lib.constant(Lib.typeClass(lib.k), "Asc");
        final Object a = lib.k.newArray(n);
        final Object b = lib.v.newArray(n);
        final Watch w = new Watch(c);
        for (int cycle = 0; cycle < 3; cycle++) {
            w.measured = cycle > 0;
            for (int i = 0; i < n; i++) {
                java.lang.reflect.Array.set(a, i, lib.k.key((i * 7) % n, T.Mode.SEQ, seed));
            }
            w.begin("sort " + n);
            lib.sort(a, b, 0, n, cmp);
            w.end(n);
            w.begin("sort short ranges of " + n);
            for (int i = 0; i + 3 < n; i++) {
                lib.sort(a, b, i, 3, cmp);
            }
            w.endAll(n);
        }
        c.nontrivial = true;
        c.count("sorts");
    }

    /** The functions from and to primitive values and bytes, and the comparators, predicates, hashes … */
    private static void functions(final Case c, final List<Functions.Fn> fs) throws Throwable {
        final Functions.Fn f = fs.get(c.index % fs.size());
        c.config(f.name());
        final Method m = f.shared();
        m.setAccessible(true);
        final Watch w = new Watch(c);
        for (int cycle = 0; cycle < 2; cycle++) {
            w.measured = cycle > 0;
            w.begin(f.name());
            int done = 0;
            for (int i = 0; i < 200; i++) {
                final Object[] args = new Object[m.getParameterCount()];
                for (int k = 0; k < args.length; k++) {
                    args[k] = Functions.arg(f, m.getParameterTypes()[k], k, c.r);
                }
                final long before = w.count[1];
                if (Functions.run(m, f.sharedOn(), args) instanceof Class<?>) { // refused
                    w.from += w.count[1] - before;
                } else {
                    done++;
                }
            }
            w.end(done);
        }
        c.nontrivial = true;
        c.count("functions");
    }

    private static List<Functions.Fn> primitive() throws Exception {
        final List<Functions.Fn> out = new ArrayList<>();
        for (Functions.Fn f : Functions.functions(Lib.loader)) {
            boolean ok = f.alone().getReturnType().isPrimitive();
            for (Class<?> p : f.alone().getParameterTypes()) {
                ok &= p.isPrimitive() || p == byte[].class;
            }
            if (ok) {
                out.add(f);
            }
        }
        return out;
    }

    private static void ids(final Case c) throws Throwable {
        final Class<?> k = Lib.cls("id.Snowflake");
        final MethodHandle next = Lib.m(k, "nextId", 0);
        final long[] now = {1_700_000_000_000L + c.r.nextInt(1 << 30)};
        final int step = c.r.nextInt(3);
        final int[] calls = {0};
        final Object o = new SnowflakeChecks.SnowLib(k).make(() -> {
            calls[0]++;
            if (step == 0 || calls[0] % step == 0) {
                now[0]++;
            }
            return now[0];
        }, "node");
        c.config(step);
        final Watch w = new Watch(c);
        Object z;
        for (int cycle = 0; cycle < 3; cycle++) {
            w.measured = cycle > 0;
            w.begin("ids");
            for (int i = 0; i < 6000; i++) {
                z = next.invoke(o);
            }
            w.end(6000);
        }
        c.nontrivial = true;
        c.count("id generators");
    }

    private static int c36(final Ctx x) throws Throwable {
        Lib.loader = new Steps(Lib.P + "hash.", Lib.P + "heap.", Lib.P + "queue.", Lib.P + "store.",
                Lib.P + "vector.", Lib.P + "sort.", Lib.P + "arrays.", Lib.P + "bi.", Lib.P + "types.", Lib.P + "id.",
                Lib.P + "exception.", Lib.P + "CapacityCalculator", Lib.P + "NumUtils");
        x.rule = "A case is one instance (or function) driven through the same cycle of operations several times;"
                + " in the second and later cycles, where everything has room already, the objects and arrays"
                + " created by the instrumented library classes are counted; non-trivial if all cycles ran.";
        x.assume("what the JDK's functions create inside is not counted, apart from the well known ones");
        x.parallel("hash", x.n(400, 4000), AllocChecks::hash);
        x.parallel("heap", x.n(300, 2000), AllocChecks::heap);
        x.parallel("queues", x.n(100, 2000), AllocChecks::queues);
        x.parallel("arrays", x.n(100, 2000), AllocChecks::arrays);
        x.parallel("bi", x.n(100, 2000), AllocChecks::bi);
        x.parallel("sort", x.n(200, 2000), AllocChecks::sort);
        final List<Functions.Fn> fs = primitive();
        x.parallel("functions", fs.size(), c -> functions(c, fs));
        x.parallel("ids", x.n(20, 20), AllocChecks::ids);
        return x.finish("sets and maps", "heaps", "deques", "vectors, arrays and stores",
                "bidirectional collections", "sorts", "functions", "id generators",
                "objects created while making room", "objects of full instances", "operations without new objects");
    }
}
