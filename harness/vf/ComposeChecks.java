package vf;

import java.lang.invoke.MethodHandle;
import java.lang.reflect.Array;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.Comparator;
import java.util.HashMap;
import java.util.HashSet;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.Set;

/** C37: collections composed by their entries, as an application with records, columns, timeouts and indexes. */
final class ComposeChecks {
    private ComposeChecks() {}

    static void register() {
        Main.CHECKS.put("C37", ComposeChecks::c37);
    }

    private static final class Rec {
        Object id;
        int entry;
        Object due; // null key means none
        boolean timed;
        Object group;
        final Set<Object> terms = new HashSet<>();
    }

    /** A column of values by entry: in the map of the ids, an array, a vector, a store or a matrix store. */
    private static final class Column {
        final T t;
        final int kind;
        final int field;
        final Map<Integer, Object> raw = new HashMap<>(); // last written at the entry
        Object o;

        Column(final T t, final int kind, final int field, final Object o) {
            this.t = t;
            this.kind = kind;
            this.field = field;
            this.o = o;
        }
    }

    private static final class Desk {
        final Case c;
        final HashLib ids;
        final HeapLib heaps;
        final HashLib terms = HashLib.of(T.STRING, null);
        final HashLib groups;
        Object idSet;
        final Object heap, termSet, groupSet, many, one, events;
        final T eventType;
        Object handles = new int[] {-1};
        Object links = new int[] {-1};
        final List<Column> columns = new ArrayList<>();
        final MethodHandle ensureInt = Lib.m(Lib.cls("arrays.IntArray"), "ensureEntry", 3);
        final MethodHandle mput, mremove, mremoveAt, mreserve, mfree, mlookup, mcontains, msize, withLeft, withRight;
        final MethodHandle oput, oremoveAt, oremove, osize, oleft, oright, owith, mleft, mright;
        final MethodHandle count, valueIterator, forEachValue;
        final MethodHandle addFirst, addLast, removeFirst, removeLast, hsize, hiterator, hreverse;
        final MethodHandle radd, rpoll, rsize, rforEach;
        final Object recent;
        final ArrayDeque<Object> lately = new ArrayDeque<>();
        final Lib.It ints = Lib.It.of(T.INT);
        final Lib.It evs;
        final T.Mode idMode;
        final long salt;
        final Map<Object, Rec> model = new LinkedHashMap<>();
        final List<Rec> list = new ArrayList<>();
        final Map<Object, ArrayDeque<Object>> fifo = new HashMap<>();
        Comparator<Object> order;
        boolean down;
        int peak;
        long reuses;
        final Set<Integer> used = new HashSet<>();
        Object iterator;

        Desk(final Case c) throws Throwable {
            this.c = c;
            final T k = T.KEYS[c.index % 9];
            final boolean map = c.r.chance(60);
            final T v = map ? T.ALL[c.index / 9 % 10] : null;
            ids = HashLib.of(k, v);
            heaps = HeapLib.of(c.r.pick(T.KEYS), T.INT);
            order = heaps.k.asc();
            groups = HashLib.of(c.r.chance(50) ? T.GENERIC : T.CHAR, null);
            idMode = c.r.pick(T.Mode.SEQ, T.Mode.RANDOM, T.Mode.STRIDE);
            salt = c.r.nextLong();
            final int init = c.r.pickInt(1, 2, 4, 16, 64);
            idSet = ids.create(init, c.r.pick(0.75, 0.5, 1.0));
            heap = heaps.create(c.r.pickInt(1, 2, 16));
            termSet = terms.create(c.r.pickInt(1, 2, 16), 0.75);
            groupSet = groups.create(c.r.pickInt(1, 2, 16), 0.75);
            final Class<?> mc = Lib.cls("bi.CompactManyToMany");
            final Class<?> oc = Lib.cls("bi.CompactOneToMany");
            many = Lib.ctor(mc).invoke();
            one = Lib.ctor(oc, int.class, int.class, boolean.class).invoke((Object) c.r.pickInt(1, 3, 16),
                    (Object) c.r.pickInt(1, 3, 16), (Object) true);
            mput = Lib.m(mc, "put", 2);
            mremove = Lib.m(mc, "remove", 2);
            mremoveAt = Lib.m(mc, "removeAt", 1);
            mreserve = Lib.m(mc, "removeAtAndReserve", 1);
            mfree = Lib.m(mc, "freeReservedEntry", 1);
            mlookup = Lib.m(mc, "lookupEntry", 2);
            mcontains = Lib.m(mc, "contains", 2);
            msize = Lib.m(mc, "size", 0);
            mleft = Lib.m(mc, "getLeftAt", 1);
            mright = Lib.m(mc, "getRightAt", 1);
            withLeft = Lib.m(mc, "withLeft", 1);
            withRight = Lib.m(mc, "withRight", 1);
            oput = Lib.m(oc, "put", 2);
            oremove = Lib.m(oc, "remove", 2);
            oremoveAt = Lib.m(oc, "removeAt", 1);
            osize = Lib.m(oc, "size", 0);
            oleft = Lib.m(oc, "getLeftAt", 1);
            oright = Lib.m(oc, "getRightAt", 1);
            owith = Lib.m(oc, "withLeft", 1);
            final Class<?> mapping = Lib.cls("bi.Mapping");
            count = Lib.m(mapping, "count", 0);
            valueIterator = Lib.m(mapping, "valueIterator", 0);
            forEachValue = Lib.m(mapping, "forEachValue", 1);
            eventType = c.r.pick(T.INT, T.LONG, T.STRING, T.GENERIC, T.DOUBLE);
            final Class<?> hc = Lib.cls("queue." + eventType.lib + "HydraDeque");
            events = Lib.ctor(hc, int.class, int.class).invoke((Object) c.r.pickInt(1, 2, 8), (Object) c.r.pickInt(1, 2, 8));
            addFirst = Lib.m(hc, "addFirst", 2);
            addLast = Lib.m(hc, "addLast", 2);
            removeLast = Lib.m(hc, "removeLast", 1);
            hreverse = Lib.m(hc, "reverseIterator", 1);
            final Class<?> dc = Lib.cls("queue.IntDeque");
            recent = Lib.ctor(dc, int.class).invoke((Object) c.r.pickInt(1, 2, 16));
            radd = Lib.m(dc, "addLast", 1);
            rpoll = Lib.m(dc, "removeFirst", 0);
            rsize = Lib.m(dc, "size", 0);
            rforEach = Lib.m(dc, "forEach", 1);
            removeFirst = Lib.m(hc, "removeFirst", 1);
            hsize = Lib.m(hc, "size", 1);
            hiterator = Lib.m(hc, "iterator", 1);
            evs = Lib.It.of(eventType);
            if (map) {
                columns.add(new Column(v, 0, 0, null));
            }
            final int n = c.r.range(1, 4);
            for (int i = 0; i < n; i++) {
                final T t = c.r.pick(T.ALL);
                final int chunk = c.r.pickInt(2, 4, 8, 64);
                switch (c.r.nextInt(3)) {
                    case 0:
                        columns.add(new Column(t, 1, 0, t.newArray(c.r.pickInt(1, 2, 10))));
                        break;
                    case 1:
                        columns.add(new Column(t, 2, 0, SeqChecks.StoreLib.of(t).ctor.invoke(
                                (Object) c.r.pickInt(1, 5, 40), (Object) chunk)));
                        break;
                    default:
                        final int fields = c.r.range(1, 3);
                        final Object o = SeqChecks.StoreLib.of(t).mctor.invoke((Object) c.r.pickInt(1, 5, 40),
                                (Object) chunk, (Object) fields);
                        for (int f = 0; f < fields; f++) {
                            columns.add(new Column(t, 3, f, o));
                        }
                        break;
                }
            }
            final StringBuilder sb = new StringBuilder();
            for (Column x : columns) {
                sb.append(' ').append(x.t.lib).append(x.kind);
            }
            c.config(ids.name(), idMode, heaps.c.getSimpleName(), groups.name(), eventType.lib, "columns" + sb);
        }

        private Object newId() {
            return ids.k.key(c.r.nextInt(ids.k == T.BYTE ? 100 : 400), idMode, salt);
        }

        private static String term(final int i) {
            return "term" + i;
        }

        private Object group(final int i) {
            return groups.k.key(i, T.Mode.SEQ, salt);
        }

        private int at(final Object a, final int e) {
            return ((int[]) a)[e];
        }

        private void write(final Column x, final Rec r) throws Throwable {
            final Object v = x.t.tag(c.r.nextInt(1 << 20));
            c.op("write " + x.t.lib + x.kind, r.entry, v);
            Object z;
            switch (x.kind) {
                case 0:
                    if (c.r.nextBoolean()) {
                        ids.putValueAt(idSet, r.entry, v);
                    } else {
                        c.eq(r.entry, ids.put(idSet, r.id, v), "entry of put");
                    }
                    break;
                case 1:
                    x.o = Lib.m(Lib.cls("arrays." + x.t.lib + "Array"), "ensureEntry", 2).invoke(x.o, (Object) r.entry);
                    Array.set(x.o, r.entry, v);
                    break;
                case 2:
                    z = SeqChecks.StoreLib.of(x.t).set.invoke(x.o, (Object) r.entry, v);
                    break;
                default:
                    z = SeqChecks.StoreLib.of(x.t).mset.invoke(x.o, (Object) r.entry, (Object) x.field, v);
                    break;
            }
            x.raw.put(r.entry, v);
        }

        private Object read(final Column x, final Rec r) throws Throwable {
            switch (x.kind) {
                case 0:
                    return c.r.nextBoolean() ? ids.get(idSet, r.id) : ids.valueAt(idSet, r.entry);
                case 1:
                    return r.entry < Array.getLength(x.o) ? Array.get(x.o, r.entry) : x.t.def();
                case 2:
                    return SeqChecks.StoreLib.of(x.t).get.invoke(x.o, (Object) r.entry);
                default:
                    return SeqChecks.StoreLib.of(x.t).mget.invoke(x.o, (Object) r.entry, (Object) x.field);
            }
        }

        void add() throws Throwable {
            final Object id = newId();
            if (model.containsKey(id)) {
                return;
            }
            c.op("add", id);
            final Rec r = new Rec();
            r.id = id;
            r.entry = ids.add(idSet, id);
            if (!used.add(r.entry)) {
                reuses++;
            }
            model.put(id, r);
            list.add(r);
            final Object y = radd.invoke(recent, (Object) r.entry);
            lately.addLast(r.entry);
            if (lately.size() > 20) {
                c.eq(lately.removeFirst(), rpoll.invoke(recent), "entry used long ago");
            }
            peak = Math.max(peak, list.size());
            c.check(r.entry >= 0 && r.entry < peak, "entry " + r.entry + " of at most " + peak + " records");
            for (Column x : columns) {
                if (x.kind == 0) {
                    x.raw.remove(r.entry);
                }
                if (c.r.chance(80)) {
                    write(x, r);
                }
            }
            handles = ensureInt.invoke(handles, (Object) r.entry, (Object) (-1));
            links = ensureInt.invoke(links, (Object) r.entry, (Object) (-1));
            c.eq(-1, at(handles, r.entry), "handle of a new record");
            c.eq(-1, at(links, r.entry), "link of a new record");
            if (c.r.chance(70)) {
                time(r);
            }
            // into its group
            r.group = group(c.r.nextInt(12));
            final int g = groups.add(groupSet, r.group);
            ((int[]) links)[r.entry] = (int) oput.invoke(one, (Object) g, (Object) r.entry);
            fifo.computeIfAbsent(r.group, z -> new ArrayDeque<>());
        }

        private void time(final Rec r) throws Throwable {
            final Object due = heaps.k.key(c.r.nextInt(50), T.Mode.SEQ, salt);
            c.op("due", r.id, due);
            final int h = at(handles, r.entry);
            if (h == -1) {
                ((int[]) handles)[r.entry] = heaps.insert(heap, due, r.entry);
            } else {
                heaps.resetKey(heap, h, due);
            }
            r.due = due;
            r.timed = true;
        }

        private void untime(final Rec r) throws Throwable {
            if (at(handles, r.entry) != -1) {
                heaps.removeAt(heap, at(handles, r.entry));
                ((int[]) handles)[r.entry] = -1;
                r.timed = false;
            }
        }

        /** Takes the record out of everything that refers to its entry. */
        private void detach(final Rec r) throws Throwable {
            untime(r);
            for (Object t : r.terms.toArray()) {
                untag(r, t);
            }
            final int link = at(links, r.entry);
            final int g = (int) oleft.invoke(one, (Object) link);
            c.eq(groups.lookup(groupSet, r.group), g, "group of " + T.show(r.id));
            c.eq(r.entry, (int) oright.invoke(one, (Object) link), "record of its link");
            final Object z = c.r.nextBoolean() ? oremoveAt.invoke(one, (Object) link)
                    : oremove.invoke(one, (Object) g, (Object) r.entry);
            c.eq(link, (int) z, "link removed");
            ((int[]) links)[r.entry] = -1;
            if ((int) count.invoke(owith.invoke(one, (Object) g)) == 0) {
                for (Object e : fifo.remove(r.group)) { // drain the events of the group
                    c.eq(e, removeFirst.invoke(events, (Object) g), "event left in the group");
                }
                c.eq(0, (int) hsize.invoke(events, (Object) g), "events of an empty group");
                groups.removeAt(groupSet, g);
                c.count("groups which ended");
            }
            model.remove(r.id);
            list.remove(r);
        }

        void cancel(final Rec r) throws Throwable {
            switch (c.r.nextInt(4)) {
                case 0:
                    c.op("remove", r.id);
                    c.eq(r.entry, ids.remove(idSet, r.id), "entry removed");
                    detach(r);
                    break;
                case 1:
                    c.op("removeAt", r.entry);
                    detach(r);
                    ids.removeAt(idSet, r.entry);
                    break;
                case 2:
                    c.op("reserve", r.entry);
                    ids.reserve(idSet, r.entry);
                    c.check(!ids.contains(idSet, r.id), "reserved record is still there");
                    c.eq(r.id, ids.keyAt(idSet, r.entry), "key at the reserved entry");
                    detach(r);
                    ids.free(idSet, r.entry);
                    break;
                default:
                    c.op("reserve, add and free", r.entry);
                    ids.reserve(idSet, r.entry);
                    final int before = list.size();
                    peak = Math.max(peak, before + 1);
                    add();
                    for (Rec x : list.subList(before, list.size())) {
                        c.check(x.entry != r.entry, "reserved entry handed out");
                    }
                    detach(r);
                    ids.free(idSet, r.entry);
                    break;
            }
            c.check(!ids.contains(idSet, r.id) || model.containsKey(r.id), "cancelled record is still there");
        }

        void expire() throws Throwable {
            c.op("expire");
            if (heaps.isEmpty(heap)) {
                for (Rec r : list) {
                    c.check(!r.timed, "due record missing in the heap");
                }
                return;
            }
            final int h = heaps.peek(heap);
            final int e = (Integer) heaps.valueAt(heap, h);
            final Object id = ids.keyAt(idSet, e);
            final Rec r = model.get(id);
            c.check(r != null && r.entry == e && r.timed, "expired " + T.show(id) + " is no record with a due time");
            c.eq(h, at(handles, e), "handle of the record which is due");
            for (Rec x : list) {
                c.check(!x.timed || order.compare(r.due, x.due) <= 0, "expired " + T.show(r.due) + " before "
                        + T.show(x.due));
            }
            c.count("expired");
            if (c.r.chance(70)) {
                cancel(r);
            } else {
                untime(r);
            }
        }

        void tag(final Rec r, final String t) throws Throwable {
            c.op("tag", r.id, t);
            final int te = terms.add(termSet, t);
            final int before = (int) msize.invoke(many);
            final int a = (int) mput.invoke(many, (Object) r.entry, (Object) te);
            c.eq(before + (r.terms.add(t) ? 1 : 0), (int) msize.invoke(many), "associations");
            c.eq(r.entry, (int) mleft.invoke(many, (Object) a), "record of the association");
            c.eq(te, (int) mright.invoke(many, (Object) a), "term of the association");
        }

        void untag(final Rec r, final Object t) throws Throwable {
            c.op("untag", r.id, t);
            final int te = terms.lookup(termSet, t);
            final int a = (int) mlookup.invoke(many, (Object) r.entry, (Object) te);
            c.check(te >= 0 && a >= 0, "association of " + t);
            Object z;
            switch (c.r.nextInt(3)) {
                case 0:
                    z = mremove.invoke(many, (Object) r.entry, (Object) te);
                    break;
                case 1:
                    z = mremoveAt.invoke(many, (Object) a);
                    break;
                default:
                    z = mreserve.invoke(many, (Object) a);
                    z = mfree.invoke(many, (Object) a);
                    break;
            }
            r.terms.remove(t);
            c.check(!(boolean) mcontains.invoke(many, (Object) r.entry, (Object) te), "association removed");
            if ((int) count.invoke(withRight.invoke(many, (Object) te)) == 0) {
                terms.remove(termSet, t);
                c.count("terms which ended");
            }
        }

        /** The records with both terms, found through the inverted index. */
        void query(final String s, final String t) throws Throwable {
            c.op("query", s, t);
            final int se = terms.lookup(termSet, s);
            final int te = terms.lookup(termSet, t);
            final Set<Object> found = new HashSet<>();
            if (se >= 0 && te >= 0) {
                final Object it = valueIterator.invoke(withRight.invoke(many, (Object) se));
                final List<Integer> both = new ArrayList<>();
                while (ints.hasNext(it)) {
                    final int e = (Integer) ints.next(it);
                    if ((boolean) mcontains.invoke(many, (Object) e, (Object) te)) {
                        both.add(e);
                    }
                }
                for (int e : both) {
                    c.check(found.add(ids.keyAt(idSet, e)), "record found twice");
                }
            }
            final Set<Object> expected = new HashSet<>();
            for (Rec r : list) {
                if (r.terms.contains(s) && r.terms.contains(t)) {
                    expected.add(r.id);
                }
            }
            c.eq(expected, found, "records with " + s + " and " + t);
            c.count("records found by terms", found.size());
        }

        void event(final Rec r) throws Throwable {
            final Object v = eventType.tag(c.r.nextInt(1 << 20));
            final Object g = oleft.invoke(one, (Object) at(links, r.entry));
            if (c.r.chance(80)) {
                c.op("event", r.id, v);
                final Object z = addLast.invoke(events, g, v);
                fifo.get(r.group).addLast(v);
            } else {
                c.op("urgent event", r.id, v);
                final Object z = addFirst.invoke(events, g, v);
                fifo.get(r.group).addFirst(v);
            }
        }

        void handle(final Rec r) throws Throwable {
            final int g = groups.lookup(groupSet, r.group);
            c.op("handle", r.id, g);
            final ArrayDeque<Object> q = fifo.get(r.group);
            if (!q.isEmpty() && c.r.chance(20)) {
                c.eq(q.removeLast(), removeLast.invoke(events, (Object) g), "last event of the group");
            } else if (!q.isEmpty()) {
                c.eq(q.removeFirst(), removeFirst.invoke(events, (Object) g), "event of the group");
                c.count("events handled");
            }
        }

        /** Removes the records which fulfil a condition on a column while iterating over them. */
        void sweep() throws Throwable {
            final int m = c.r.range(2, 6);
            c.op("sweep", m);
            iterator = ids.iterator(idSet, c.r.nextBoolean() ? iterator : null);
            int seen = 0;
            final int n = list.size();
            while (Lib.EntryIt.next(iterator)) {
                final int e = Lib.EntryIt.current(iterator);
                final Object id = ids.keyAt(idSet, e);
                final Rec r = model.get(id);
                c.check(r != null && r.entry == e, "record at the iterator");
                seen++;
                if (e % m == 0) {
                    Lib.EntryIt.remove(iterator);
                    detach(r);
                }
            }
            c.eq(n, seen, "records visited");
        }

        /** Moves the ids to the entries of another set, as a copy, and goes on with columns by entry. */
        void snapshot() throws Throwable {
            c.op("snapshot");
            final Object copy = ids.create(c.r.pickInt(1, 16, 256), 0.75);
            ids.copyFrom(copy, idSet);
            for (Rec r : list) {
                c.eq(r.entry, ids.lookup(copy, r.id), "entry in the copy");
            }
            if (c.r.nextBoolean()) { // goes on with the copy
                final Object old = idSet;
                idSet = copy;
                iterator = null;
                ids.clear(old);
                c.eq(0, ids.size(old), "cleared original");
                c.count("copies used instead");
                return;
            }
            ids.clear(copy);
            c.eq(0, ids.size(copy), "cleared copy");
        }

        /** Ranks the records of the heap by due time. */
        void rank() throws Throwable {
            c.op("rank");
            final List<Integer> es = new ArrayList<>();
            ids.forEachEntry(idSet, x -> {
                if (at(handles, (Integer) x) != -1) {
                    es.add((Integer) x);
                }
            });
            final int n = es.size();
            final Object keys = heaps.k.newArray(n + 2);
            final int[] entries = new int[n + 2];
            for (int i = 0; i < n; i++) {
                entries[i + 1] = es.get(i);
                Array.set(keys, i + 1, heaps.keyAt(heap, at(handles, es.get(i))));
            }
            SortChecks.SortLib.of(heaps.k, T.INT).sort(keys, entries, 1, n, heaps.getCmp(heap));
            for (int i = 1; i <= n; i++) {
                final Rec r = model.get(ids.keyAt(idSet, entries[i]));
                c.eq(r.due, Array.get(keys, i), "due time ranked with the record");
                c.check(i == 1 || order.compare(Array.get(keys, i - 1), r.due) <= 0, "ranked by due time");
            }
            c.eq(n, es.stream().distinct().count(), "records ranked");
            c.count("records ranked", n);
        }

        void reverse() throws Throwable {
            c.op("reverse the order");
            down = !down;
            order = down ? heaps.k.asc().reversed() : heaps.k.asc();
            heaps.setCmp(heap, Lib.constant(Lib.typeClass(heaps.k), down ? "Desc" : "Asc"));
        }

        /** Ends everything at once, keeping only the columns. */
        void close() throws Throwable {
            c.op("close");
            heaps.clear(heap);
            for (Rec r : list.toArray(new Rec[0])) {
                ((int[]) handles)[r.entry] = -1;
                r.timed = false;
                detach(r);
            }
            ids.clear(idSet);
            terms.clear(termSet);
            groups.clear(groupSet);
            peak = 0; // entries start from 0 again
            c.count("closed");
        }

        void verify() throws Throwable {
            c.op("verify");
            c.eq(list.size(), ids.size(idSet), "records");
            final List<Object> last = new ArrayList<>();
            Object z1 = rforEach.invoke(recent, Lib.intConsumer(last::add));
            c.eq(new ArrayList<>(lately), last, "entries used recently");
            c.eq(lately.size(), (int) rsize.invoke(recent), "entries used recently");
            int timed = 0;
            int associations = 0;
            final Map<Object, Set<Integer>> byTerm = new HashMap<>();
            final Map<Object, Set<Integer>> byGroup = new HashMap<>();
            for (Rec r : list) {
                final String who = "record " + T.show(r.id) + " at " + r.entry;
                c.eq(r.entry, ids.lookup(idSet, r.id), who);
                c.eq(r.id, ids.keyAt(idSet, r.entry), who);
                for (Column x : columns) {
                    final Object raw = x.raw.containsKey(r.entry) ? x.raw.get(r.entry) : x.t.def();
                    c.eq(raw, read(x, r), "column " + x.t.lib + x.kind + " of " + who);
                }
                final int h = at(handles, r.entry);
                c.check(r.timed == (h != -1), "handle of " + who);
                if (r.timed) {
                    timed++;
                    c.check(heaps.isValid(heap, h), "handle valid of " + who);
                    c.eq(r.due, heaps.keyAt(heap, h), "due time of " + who);
                    c.eq((Object) r.entry, heaps.valueAt(heap, h), "entry in the heap of " + who);
                }
                for (Object t : r.terms) {
                    associations++;
                    byTerm.computeIfAbsent(t, z -> new HashSet<>()).add(r.entry);
                }
                final Set<Object> ts = new HashSet<>();
                final Object it = valueIterator.invoke(withLeft.invoke(many, (Object) r.entry));
                while (ints.hasNext(it)) {
                    c.check(ts.add(terms.keyAt(termSet, (Integer) ints.next(it))), "term twice of " + who);
                }
                c.eq(r.terms, ts, "terms of " + who);
                byGroup.computeIfAbsent(r.group, z -> new HashSet<>()).add(r.entry);
                c.eq(groups.lookup(groupSet, r.group), (int) oleft.invoke(one, (Object) at(links, r.entry)),
                        "group of " + who);
            }
            c.eq(timed, heaps.size(heap), "due records");
            c.eq(associations, (int) msize.invoke(many), "associations");
            c.eq(list.size(), (int) osize.invoke(one), "members of groups");
            c.eq(byTerm.size(), terms.size(termSet), "terms");
            c.eq(byGroup.size(), groups.size(groupSet), "groups");
            for (Map.Entry<Object, Set<Integer>> x : byTerm.entrySet()) {
                final int te = terms.lookup(termSet, x.getKey());
                c.eq(x.getValue().size(), (int) count.invoke(withRight.invoke(many, (Object) te)), "records of a term");
                c.eq(x.getValue(), values(withRight.invoke(many, (Object) te)), "records of " + x.getKey());
            }
            for (Map.Entry<Object, Set<Integer>> x : byGroup.entrySet()) {
                final int g = groups.lookup(groupSet, x.getKey());
                c.eq(x.getKey(), groups.keyAt(groupSet, g), "group at its entry");
                c.eq(x.getValue(), values(owith.invoke(one, (Object) g)), "members of " + T.show(x.getKey()));
                final ArrayDeque<Object> q = fifo.get(x.getKey());
                c.eq(q.size(), (int) hsize.invoke(events, (Object) g), "events of a group");
                final Object it = hiterator.invoke(events, (Object) g);
                for (Object e : q) {
                    c.check(evs.hasNext(it), "event missing");
                    c.eq(e, evs.next(it), "event of " + T.show(x.getKey()));
                }
                c.check(!evs.hasNext(it), "one event too many");
                final Object back = hreverse.invoke(events, (Object) g);
                for (java.util.Iterator<Object> i = q.descendingIterator(); i.hasNext(); ) {
                    c.check(evs.hasNext(back), "event missing");
                    c.eq(i.next(), evs.next(back), "event of " + T.show(x.getKey()) + " from behind");
                }
                c.check(!evs.hasNext(back), "one event too many");
            }
        }

        private Set<Integer> values(final Object mapping) throws Throwable {
            final Set<Integer> s = new HashSet<>();
            final Object z = forEachValue.invoke(mapping,
                    Lib.intConsumer(x -> c.check(s.add((Integer) x), "value twice")));
            return s;
        }
    }

    private static void desk(final Case c) throws Throwable {
        final Desk d = new Desk(c);
        final int target = c.r.pickInt(3, 10, 40, 90);
        final int steps = 300;
        for (int i = 0; i < steps; i++) {
            final int n = d.list.size();
            final Rec r = n == 0 ? null : d.list.get(c.r.nextInt(n));
            final int p = c.r.nextInt(100);
            if (r == null || p < (n < target ? 30 : 6)) {
                d.add();
            } else if (p < 40) {
                d.cancel(r);
            } else if (p < 50) {
                d.write(c.r.pick(d.columns.toArray(new Column[0])), r);
            } else if (p < 58) {
                d.time(r);
            } else if (p < 64) {
                d.expire();
            } else if (p < 78) {
                d.tag(r, Desk.term(c.r.nextInt(8)));
            } else if (p < 82) {
                if (!r.terms.isEmpty()) {
                    d.untag(r, r.terms.iterator().next());
                }
            } else if (p < 86) {
                d.query(Desk.term(c.r.nextInt(8)), Desk.term(c.r.nextInt(8)));
            } else if (p < 92) {
                d.event(r);
            } else if (p < 96) {
                d.handle(r);
            } else if (p < 97) {
                d.sweep();
            } else if (p < 98) {
                switch (c.r.nextInt(7)) {
                    case 0:
                        d.reverse();
                        break;
                    case 1:
                    case 2:
                    case 3:
                        d.rank();
                        break;
                    case 4:
                    case 5:
                        d.snapshot();
                        break;
                    default:
                        d.close();
                        break;
                }
            } else {
                d.verify();
            }
        }
        d.verify();
        while (!d.heaps.isEmpty(d.heap)) { // everything becomes due
            d.expire();
        }
        d.verify();
        c.nontrivial = d.reuses > 0;
        c.count("entries used again", d.reuses);
    }

    private static int c37(final Ctx x) throws Throwable {
        x.rule = "A case is an application of one set or map of record ids whose entries are used as indexes of columns"
                + " (map values, arrays, stores, matrix rows), as values of a heap of due times, as keys of an inverted"
                + " index and of groups, whose entries in turn are used as keys and list ids; 300 steps of adding,"
                + " changing, cancelling, expiring, querying and sweeping, compared with plain maps; non-trivial if"
                + " entries were used again.";
        x.parallel("desk", x.n(8000, 400_000), ComposeChecks::desk);
        return x.finish("entries used again", "expired", "records found by terms", "events handled",
                "terms which ended", "groups which ended",
                "records ranked", "copies used instead", "closed");
    }
}
