package vf;

import java.lang.invoke.MethodHandle;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.Iterator;
import java.util.List;
import java.util.Map;
import java.util.NoSuchElementException;
import java.util.function.Consumer;

/** C11, C12, C14, C15, C16 and their parts of C31 and C32. */
final class SeqChecks {
    private SeqChecks() {}

    // ------------------------------------------------------------------ deque

    static final class DequeLib {
        final T t;
        final MethodHandle ctor, forEach, addFirst, addLast, size, removeFirst, removeLast, peekFirst,
                peekLast, isEmpty, clear;

        private DequeLib(final T t) {
            this.t = t;
            final Class<?> c = Lib.cls("queue." + t.lib + "Deque");
            ctor = Lib.ctor(c, int.class);
            forEach = Lib.m(c, "forEach", 1);
            addFirst = Lib.m(c, "addFirst", 1);
            addLast = Lib.m(c, "addLast", 1);
            size = Lib.m(c, "size", 0);
            removeFirst = Lib.m(c, "removeFirst", 0);
            removeLast = Lib.m(c, "removeLast", 0);
            peekFirst = Lib.m(c, "peekFirst", 0);
            peekLast = Lib.m(c, "peekLast", 0);
            isEmpty = Lib.m(c, "isEmpty", 0);
            clear = Lib.m(c, "clear", 0);
        }

        static DequeLib of(final T t) {
            return Lib.cached("Deque" + t, k -> new DequeLib(t));
        }
    }

    static final class DequeMachine {
        final Case c;
        final DequeLib lib;
        Object o;
        int cap;
        final ArrayDeque<Object[]> model = new ArrayDeque<>(); // wrapped: elements may be null
        long n;
        int peak;
        boolean deep = true;

        DequeMachine(final Case c, final T t) {
            this.c = c;
            lib = DequeLib.of(t);
        }

        void create(final int cap) throws Throwable {
            this.cap = cap;
            o = (Object) lib.ctor.invokeExact((Object) cap);
        }

        static DequeMachine random(final Case c, final T t) throws Throwable {
            final DequeMachine m = new DequeMachine(c, t);
            final int cap = c.r.pickInt(1, 1, 2, 3, 4, 5, 8, 16, 17, 64, 100);
            c.config(t.lib + "Deque", "cap=" + cap);
            m.create(cap);
            return m;
        }

        DequeMachine view(final Case d) {
            final DequeMachine m = new DequeMachine(d, lib.t);
            m.o = o;
            m.cap = cap;
            m.model.addAll(model);
            return m;
        }

        void step() throws Throwable {
            if (c.r.nextInt(100) < (model.size() > 30 ? 30 : 55)) {
                add(c.r.nextBoolean(), value());
            } else {
                remove(c.r.nextBoolean());
            }
        }

        Object value() {
            return c.r.chance(4) ? lib.t.gen(c.r) : lib.t.tag(n++);
        }

        void add(final boolean first, final Object v) throws Throwable {
            c.op(first ? "addFirst" : "addLast", v);
            if (first) {
                final Object x = (Object) lib.addFirst.invokeExact(o, v);
                model.addFirst(new Object[] {v});
            } else {
                final Object x = (Object) lib.addLast.invokeExact(o, v);
                model.addLast(new Object[] {v});
            }
            peak = Math.max(peak, model.size());
            touch();
        }

        void remove(final boolean first) throws Throwable {
            c.op(first ? "removeFirst" : "removeLast");
            Object got;
            try {
                got = first ? (Object) lib.removeFirst.invokeExact(o)
                        : (Object) lib.removeLast.invokeExact(o);
            } catch (NoSuchElementException e) {
                c.check(model.isEmpty(), "removal refused although " + model.size() + " elements are left");
                c.count("removal of an empty deque refused");
                verify();
                return;
            }
            c.check(!model.isEmpty(), "removal from an empty deque returned " + T.show(got));
            final Object[] want = first ? model.removeFirst() : model.removeLast();
            same(want[0], got, first ? "removeFirst" : "removeLast");
            touch();
        }

        private void same(final Object want, final Object got, final String what) {
            if (lib.t.isRef()) {
                c.check(want == got, what + ": expected " + T.show(want) + " but was " + T.show(got));
            } else {
                c.eq(want, got, what);
            }
        }

        void clear() throws Throwable {
            c.op("clear");
            final Object x = (Object) lib.clear.invokeExact(o);
            model.clear();
            c.count("clear");
            verify();
        }

        void touch() throws Throwable {
            c.eq(model.size(), (Integer) (Object) lib.size.invokeExact(o), "size");
            c.check((Boolean) (Object) lib.isEmpty.invokeExact(o) == model.isEmpty(), "isEmpty");
            for (int i = 0; i < 2; i++) {
                Object got = null;
                boolean refused = false;
                try {
                    got = i == 0 ? (Object) lib.peekFirst.invokeExact(o)
                            : (Object) lib.peekLast.invokeExact(o);
                } catch (NoSuchElementException e) {
                    refused = true;
                }
                c.check(refused == model.isEmpty(), "peek " + (refused ? "refused with " : "succeeds with ")
                        + model.size() + " elements");
                if (!refused) {
                    same((i == 0 ? model.peekFirst() : model.peekLast())[0], got,
                            i == 0 ? "peekFirst" : "peekLast");
                }
            }
        }

        void verify() throws Throwable {
            touch();
            walk(!model.isEmpty() && c.r.chance(6) ? c.r.nextInt(model.size()) : -1);
            c.count("full comparisons");
        }

        /** forEach, with another one at the given visit. */
        private void walk(final int nestAt) throws Throwable {
            final Iterator<Object[]> it = model.iterator();
            final int[] n = {0};
            final Consumer<Object> f = v -> {
                c.check(it.hasNext(), "forEach delivers more than the " + model.size() + " elements");
                same(it.next()[0], v, "element " + n[0] + " of forEach");
                if (n[0]++ == nestAt) {
                    Lib.quietly(() -> walk(-1));
                    c.count("traversals within traversals");
                }
            };
            final Object x = (Object) lib.forEach.invokeExact(o, Lib.consumer(lib.t, f));
            c.eq(model.size(), n[0], "elements delivered by forEach");
        }

        void drive(final int total) throws Throwable {
            final Rng r = c.r;
            int done = 0;
            while (done < total) {
                final int n = Math.min(total - done, 1 + r.nextInt(r.pickInt(5, 20, 100)));
                final int addP = r.pickInt(20, 50, 50, 80, 95); // percent of adds
                final int firstP = r.pickInt(0, 10, 50, 90, 100); // at the head
                final int remFirstP = r.pickInt(0, 10, 50, 90, 100);
                for (int i = 0; i < n; i++) {
                    if (r.nextInt(100) < addP) {
                        add(r.nextInt(100) < firstP, value());
                    } else {
                        remove(r.nextInt(100) < remFirstP);
                    }
                    if (r.nextInt(model.size() * 2 + 10) == 0) {
                        verify();
                    }
                }
                done += n;
                if (r.chance(25)) {
                    clear();
                }
            }
            verify();
        }
    }

    private static int c11(final Ctx x) throws Throwable {
        x.rule = "A case is one history of calls on one deque (10 element types, initial capacity and"
                + " phases drawn at random) compared with a reference sequence after every call;"
                + " non-trivial if it made at least 10 calls and held at least 3 elements at once.";
        x.assume("single-threaded use");
        x.parallel("deque", x.n(20000, 400000), c -> {
            final DequeMachine m = DequeMachine.random(c, T.ALL[c.index % 10]);
            m.drive(c.r.pickInt(30, 100, 400, 1000));
            c.nontrivial = c.events >= 10 && m.peak >= 3;
            if (m.peak >= m.cap) {
                c.count("grown histories");
            }
        });
        x.parallel("large", x.n(10, 60), c -> {
            final Rng r = c.r;
            final DequeMachine m = DequeMachine.random(c, T.ALL[c.index % 10]);
            final int n = r.pickInt(70_000, 70_000, 300_000);
            for (int phase = 0; phase < 6; phase++) {
                final int addP = phase % 2 == 0 ? 90 : r.pickInt(5, 50);
                final int firstP = r.pickInt(0, 50, 100);
                final int remFirstP = r.pickInt(0, 50, 100);
                for (int i = 0; i < n; i++) {
                    if (r.nextInt(100) < addP) {
                        m.add(r.nextInt(100) < firstP, m.value());
                    } else {
                        m.remove(r.nextInt(100) < remFirstP);
                    }
                }
                m.verify();
                if (r.chance(6)) {
                    m.clear();
                }
            }
            while (!m.model.isEmpty()) {
                m.remove(r.nextBoolean());
            }
            c.nontrivial = true;
            c.count("large histories");
        });
        x.parallel("offsets", x.n(1200, 6000), c -> { // every ring position at the moment of growth
            final T t = T.ALL[c.index % 10];
            final int cap = 1 << (c.index / 10 % 6);
            final int shift = (c.index / 60) % Math.max(1, 2 * cap);
            final DequeMachine m = new DequeMachine(c, t);
            c.config(t.lib + "Deque", "cap=" + cap, "shift=" + shift);
            m.create(cap);
            final boolean first = c.r.nextBoolean();
            if (cap > 1) {
                for (int i = 0; i < shift; i++) {
                    m.add(first, m.value());
                    m.remove(!first);
                }
            }
            final int how = c.r.nextInt(3);
            for (int i = 0; i < cap * 5 + 3; i++) {
                m.add(how == 2 ? c.r.nextBoolean() : how == 0, m.value());
                m.verify();
            }
            final int out = c.r.nextInt(3);
            while (!m.model.isEmpty()) {
                m.remove(out == 2 ? c.r.nextBoolean() : out == 0);
            }
            m.verify();
            c.nontrivial = true;
        });
        x.parallel("soak", x.n(16, 90), c -> { // one collection for a very long time
            final DequeMachine m = DequeMachine.random(c, T.ALL[c.r.nextInt(10)]);
            final int n = c.r.pickInt(70_000, 140_000);
            if (c.index % 2 == 0) {
                m.drive(n);
            } else { // around a small size, never cleared
                final int most = c.r.pickInt(1, 5, 40);
                final boolean fifo = c.r.nextBoolean();
                final boolean side = c.r.nextBoolean();
                for (int i = 0; i < n; i++) {
                    if (m.model.size() < most && (m.model.isEmpty() || c.r.nextBoolean())) {
                        m.add(fifo ? side : c.r.nextBoolean(), m.value());
                    } else {
                        m.remove(fifo ? !side : c.r.nextBoolean());
                    }
                }
                m.verify();
            }
            c.nontrivial = true;
            c.count("soaked collections");
        });
        Vast.deque(x);
        return x.finish("grown histories", "clear", "removal of an empty deque refused", "vast collections");
    }

    // ------------------------------------------------------------------ hydra

    static final class HydraLib {
        final T t;
        final MethodHandle ctor, addFirst, addLast, size, sizeOf, removeFirst, removeLast, isEmpty, clear,
                iterator, iteratorReuse, reverse, reverseReuse;

        private HydraLib(final T t) {
            this.t = t;
            final Class<?> c = Lib.cls("queue." + t.lib + "HydraDeque");
            ctor = Lib.ctor(c, int.class, int.class);
            addFirst = Lib.m(c, "addFirst", 2);
            addLast = Lib.m(c, "addLast", 2);
            size = Lib.m(c, "size", 0);
            sizeOf = Lib.m(c, "size", 1);
            removeFirst = Lib.m(c, "removeFirst", 1);
            removeLast = Lib.m(c, "removeLast", 1);
            isEmpty = Lib.m(c, "isEmpty", 0);
            clear = Lib.m(c, "clear", 0);
            iterator = Lib.m(c, "iterator", 1);
            iteratorReuse = Lib.m(c, "iterator", 2);
            reverse = Lib.m(c, "reverseIterator", 1);
            reverseReuse = Lib.m(c, "reverseIterator", 2);
        }

        static HydraLib of(final T t) {
            return Lib.cached("Hydra" + t, k -> new HydraLib(t));
        }
    }

    static final class HydraMachine {
        final Case c;
        final HydraLib lib;
        Object o;
        int initialQueues, cap, lists;
        final Map<Integer, ArrayDeque<Object[]>> model = new HashMap<>();
        int size;
        int peak;
        long n;
        private final Object[] kept = new Object[2];
        static final ArrayDeque<Object[]> EMPTY = new ArrayDeque<>();

        HydraMachine(final Case c, final T t) {
            this.c = c;
            lib = HydraLib.of(t);
        }

        void create(final int q, final int cap) throws Throwable {
            initialQueues = q;
            this.cap = cap;
            o = (Object) lib.ctor.invokeExact((Object) q, (Object) cap);
        }

        static HydraMachine random(final Case c, final T t) throws Throwable {
            final HydraMachine m = new HydraMachine(c, t);
            m.lists = c.r.pickInt(1, 2, 3, 3, 8, 30);
            final int q = c.r.pickInt(1, 1, 2, 4, 10);
            final int cap = c.r.pickInt(1, 1, 2, 3, 8, 16, 33);
            c.config(t.lib + "HydraDeque", "queues=" + q, "cap=" + cap, "lists=" + m.lists);
            m.create(q, cap);
            return m;
        }

        HydraMachine view(final Case d) {
            final HydraMachine m = new HydraMachine(d, lib.t);
            m.o = o;
            m.lists = lists;
            m.initialQueues = initialQueues;
            m.cap = cap;
            m.size = size;
            m.model.putAll(model);
            return m;
        }

        void step() throws Throwable {
            final int id = c.r.nextInt(lists);
            if (c.r.nextInt(100) < (size > 30 ? 30 : 55)) {
                add(id, c.r.nextBoolean(), value());
            } else {
                remove(id, c.r.nextBoolean());
            }
        }

        int idBy = 1, idFrom; // the ids of the lists

        int idOf(final int i) {
            return idFrom + idBy * i;
        }

        ArrayDeque<Object[]> list(final int id) {
            return model.getOrDefault(id, EMPTY);
        }

        Object value() {
            return c.r.chance(4) ? lib.t.gen(c.r) : lib.t.tag(n++);
        }

        private void same(final Object want, final Object got, final String what) {
            if (lib.t.isRef()) {
                c.check(want == got, what + ": expected " + T.show(want) + " but was " + T.show(got));
            } else {
                c.eq(want, got, what);
            }
        }

        int add(final int id, final boolean first, final Object v) throws Throwable {
            c.op(first ? "addFirst" : "addLast", id, v);
            final int e = (Integer) (first ? (Object) lib.addFirst.invokeExact(o, (Object) id, v)
                    : (Object) lib.addLast.invokeExact(o, (Object) id, v));
            final ArrayDeque<Object[]> l = model.computeIfAbsent(id, k -> new ArrayDeque<>());
            if (first) {
                l.addFirst(new Object[] {v});
            } else {
                l.addLast(new Object[] {v});
            }
            size++;
            peak = Math.max(peak, size);
            touch(id);
            return e;
        }

        void remove(final int id, final boolean first) throws Throwable {
            c.op(first ? "removeFirst" : "removeLast", id);
            final ArrayDeque<Object[]> l = list(id);
            Object got;
            try {
                got = first ? (Object) lib.removeFirst.invokeExact(o, (Object) id)
                        : (Object) lib.removeLast.invokeExact(o, (Object) id);
            } catch (NoSuchElementException e) {
                c.check(l.isEmpty(), "removal refused although list " + id + " has " + l.size() + " elements");
                c.count("removal of an empty list refused");
                if (c.r.chance(8 + (lists + size) / 50)) {
                    verify();
                }
                return;
            }
            c.check(!l.isEmpty(), "removal from empty list " + id + " returned " + T.show(got));
            same((first ? l.removeFirst() : l.removeLast())[0], got,
                    (first ? "removeFirst " : "removeLast ") + id);
            size--;
            touch(id);
        }

        void clear() throws Throwable {
            c.op("clear");
            final Object x = (Object) lib.clear.invokeExact(o);
            model.clear();
            size = 0;
            c.count("clear");
            verify();
        }

        void touch(final int id) throws Throwable {
            c.eq(size, (Integer) (Object) lib.size.invokeExact(o), "size");
            c.check((Boolean) (Object) lib.isEmpty.invokeExact(o) == (size == 0), "isEmpty");
            checkSize(id);
            checkSize(idOf(c.r.nextInt(lists)));
        }

        private void checkSize(final int id) throws Throwable {
            c.eq(list(id).size(), (Integer) (Object) lib.sizeOf.invokeExact(o, (Object) id),
                    "size of list " + id);
        }

        void checkList(final int id, final boolean reverse) throws Throwable {
            final ArrayDeque<Object[]> l = list(id);
            final int k = reverse ? 1 : 0;
            Object it;
            if (kept[k] != null && c.r.nextBoolean()) {
                c.count("iterator reused");
                it = reverse ? (Object) lib.reverseReuse.invokeExact(o, (Object) id, kept[k])
                        : (Object) lib.iteratorReuse.invokeExact(o, (Object) id, kept[k]);
            } else {
                it = reverse ? (Object) lib.reverse.invokeExact(o, (Object) id)
                        : (Object) lib.iterator.invokeExact(o, (Object) id);
            }
            kept[k] = null; // in use
            final Lib.It h = Lib.It.of(lib.t);
            final Iterator<Object[]> want = reverse ? l.descendingIterator() : l.iterator();
            final String what = (reverse ? "reverse " : "") + "iterator of list " + id;
            final int[] n = {0};
            if (l.size() > 1 && c.r.chance(10)) { // given up halfway, and used again later
                for (int i = c.r.nextInt(l.size()); i > 0; i--) {
                    c.check(h.hasNext(it), what + " ends after " + n[0] + " of " + l.size() + " elements");
                    same(want.next()[0], h.next(it), what + " at " + n[0]++);
                }
                c.count("iterator given up");
                kept[k] = it;
                return;
            }
            final boolean disturb = others && !nested && l.size() > 1 && c.r.chance(6);
            final int alone = c.r.chance(3) ? c.r.nextInt(l.size() + 1) : 0;
            for (int i = 0; i < alone; i++) { // without asking, or asking twice
                if (i % 2 == 0) {
                    c.check(h.hasNext(it) && h.hasNext(it), what + " ends after " + i + " of " + l.size());
                }
                same(want.next()[0], h.next(it), what + " at " + n[0]++);
            }
            if (c.r.chance(4)) {
                h.forEach(it, v -> {
                    c.check(want.hasNext(), what + " delivers more than " + l.size() + " elements");
                    same(want.next()[0], v, what + " at " + n[0]++);
                    if (disturb && c.r.chance(3)) {
                        Lib.quietly(() -> changeOther(id));
                    }
                });
            } else {
                while (h.hasNext(it)) {
                    c.check(want.hasNext(), what + " delivers more than " + l.size() + " elements");
                    same(want.next()[0], h.next(it), what + " at " + n[0]++);
                    if (disturb && c.r.chance(3)) {
                        changeOther(id);
                    }
                }
            }
            if (c.r.chance(10)) {
                c.count("exhausted iterators asked again");
                boolean thrown = false;
                try {
                    final Object x = h.next(it);
                } catch (RuntimeException e) {
                    thrown = true;
                }
                c.check(thrown && !h.hasNext(it), "next of the exhausted " + what + " succeeds");
            }
            c.eq(l.size(), n[0], "elements delivered by the " + what);
            kept[k] = it;
        }

        private boolean nested;
        boolean others; // whether other lists may change while one is traversed

        /** Changes any other list than the one that is being traversed. */
        private void changeOther(final int id) throws Throwable {
            if (c.r.chance(4)) {
                nested = true;
                checkList(c.r.nextBoolean() ? id : idOf(c.r.nextInt(lists)), c.r.nextBoolean());
                nested = false;
                c.count("traversals within traversals");
            }
            for (int n = c.r.chance(10) ? 30 : 1 + c.r.nextInt(3); n > 0; n--) {
                final int other = idOf(c.r.nextInt(lists));
                if (other != id) {
                    c.count("other lists changed while traversing");
                    if (c.r.nextBoolean()) {
                        add(other, c.r.nextBoolean(), value());
                    } else if (!list(other).isEmpty()) {
                        remove(other, c.r.nextBoolean());
                    }
                }
            }
        }

        void verify() throws Throwable {
            final int[] odd = {-1, Integer.MIN_VALUE, Integer.MAX_VALUE, idOf(lists), idOf(lists) + 1 + c.r.nextInt(50)};
            for (int id : odd) {
                if (list(id).isEmpty()) {
                    checkSize(id);
                    checkList(id, false);
                    checkList(id, true);
                }
            }
            for (int i = 0; i < lists; i++) {
                final int id = idOf(i);
                checkSize(id);
                checkList(id, false);
                checkList(id, true);
            }
            c.eq(size, (Integer) (Object) lib.size.invokeExact(o), "size");
            c.count("full comparisons");
        }

        void drive(final int total) throws Throwable {
            final Rng r = c.r;
            int done = 0;
            while (done < total) {
                final int n = Math.min(total - done, 1 + r.nextInt(r.pickInt(5, 20, 100)));
                final int addP = r.pickInt(20, 50, 50, 80);
                final int firstP = r.pickInt(0, 50, 100);
                final int remFirstP = r.pickInt(0, 50, 100);
                final int focus = r.chance(3) ? idOf(r.nextInt(lists)) : -1;
                for (int i = 0; i < n; i++) {
                    int id = focus >= 0 && r.nextInt(3) > 0 ? focus : idOf(r.nextInt(lists));
                    if (r.nextInt(100) < addP) {
                        add(id, r.nextInt(100) < firstP, value());
                    } else {
                        if (r.chance(15)) {
                            id = r.pickInt(-1, Integer.MIN_VALUE, Integer.MAX_VALUE, idOf(lists) + 2);
                        }
                        remove(id, r.nextInt(100) < remFirstP);
                    }
                    if (r.nextInt(size * 2 + 10 + lists) == 0) {
                        verify();
                    }
                }
                done += n;
                if (r.chance(20)) {
                    clear();
                }
            }
            verify();
        }
    }

    private static int c12(final Ctx x) throws Throwable {
        x.rule = "A case is one history of calls on one hydra deque (10 element types, initial queues,"
                + " capacity, number of lists and phases drawn at random) compared with one reference"
                + " sequence per list; non-trivial if it made at least 10 calls and held at least 3"
                + " elements at once.";
        x.assume("single-threaded use; iterators are not used across changes of their own list");
        x.parallel("hydra", x.n(12000, 250000), c -> {
            final HydraMachine m = HydraMachine.random(c, T.ALL[c.index % 10]);
            m.others = true;
            if (c.r.chance(10)) {
                m.idBy = c.r.pickInt(2, 17, 1000);
                m.idFrom = c.r.nextInt(c.r.pickInt(2, 100, 70000));
                c.config(c.config, "ids=" + m.idFrom + "+" + m.idBy + "i");
            }
            m.drive(c.r.pickInt(30, 100, 400, 1000));
            c.nontrivial = c.events >= 10 && m.peak >= 3;
            if (m.peak > m.cap) {
                c.count("grown histories");
            }
        });
        x.parallel("large", x.n(10, 60), c -> {
            final Rng r = c.r;
            final HydraMachine m = new HydraMachine(c, T.ALL[c.index % 10]);
            m.lists = r.pickInt(1, 3, 500, 70_000);
            final int cap = r.pickInt(1, 16, 5000);
            c.config(m.lib.t.lib + "HydraDeque", "cap=" + cap, "lists=" + m.lists);
            m.create(r.pickInt(1, 16), cap);
            final int n = r.pickInt(70_000, 150_000);
            for (int phase = 0; phase < 5; phase++) {
                final int addP = phase % 2 == 0 ? 90 : r.pickInt(5, 50);
                for (int i = 0; i < n; i++) {
                    if (r.nextInt(100) < addP) {
                        m.add(r.nextInt(m.lists), r.nextBoolean(), m.value());
                    } else {
                        m.remove(r.nextInt(m.lists), r.nextBoolean());
                    }
                }
                m.verify();
                if (r.chance(6)) {
                    m.clear();
                }
            }
            for (int i = 0; i < m.lists; i++) {
                while (!m.list(i).isEmpty()) {
                    m.remove(i, r.nextBoolean());
                }
            }
            c.eq(0, m.size, "elements left");
            c.nontrivial = true;
            c.count("large histories");
        });
        x.parallel("soak", x.n(16, 90), c -> { // one collection for a very long time
            final HydraMachine m = HydraMachine.random(c, T.ALL[c.r.nextInt(10)]);
            final int n = c.r.pickInt(70_000, 140_000);
            if (c.index % 2 == 0) {
                m.drive(n);
            } else { // around a small size, never cleared
                final int most = c.r.pickInt(1, 5, 40);
                for (int i = 0; i < n; i++) {
                    final int id = m.idOf(c.r.nextInt(m.lists));
                    if (m.size < most && (m.size == 0 || c.r.nextBoolean())) {
                        m.add(id, c.r.nextBoolean(), m.value());
                    } else {
                        m.remove(id, c.r.nextBoolean());
                    }
                }
                m.verify();
            }
            c.nontrivial = true;
            c.count("soaked collections");
        });
        Vast.hydra(x);
        return x.finish("grown histories", "clear", "removal of an empty list refused", "iterator reused",
                "other lists changed while traversing", "iterator given up",
                "traversals within traversals", "exhausted iterators asked again",
                "vast collections");
    }

    // ------------------------------------------------------------------ vector

    static final class VectorLib {
        final T t;
        final MethodHandle ctor, ensureSize, append, valueAt, forEach, size, isEmpty, clear;

        private VectorLib(final T t) {
            this.t = t;
            final Class<?> c = Lib.cls("vector." + t.lib + "Vector");
            ctor = Lib.ctor(c, int.class);
            ensureSize = Lib.m(c, "ensureSize", 1);
            append = Lib.m(c, "append", 1);
            valueAt = Lib.m(c, "valueAt", 1);
            forEach = Lib.m(c, "forEach", 1);
            size = Lib.m(c, "size", 0);
            isEmpty = Lib.m(c, "isEmpty", 0);
            clear = Lib.m(c, "clear", 0);
        }

        static VectorLib of(final T t) {
            return Lib.cached("Vector" + t, k -> new VectorLib(t));
        }
    }

    static final class VectorMachine {
        final Case c;
        final VectorLib lib;
        Object o;
        int cap;
        final List<Object> model = new ArrayList<>();
        long n;
        int peak;

        VectorMachine(final Case c, final T t) {
            this.c = c;
            lib = VectorLib.of(t);
        }

        void create(final int cap) throws Throwable {
            this.cap = cap;
            o = (Object) lib.ctor.invokeExact((Object) cap);
        }

        static VectorMachine random(final Case c, final T t) throws Throwable {
            final VectorMachine m = new VectorMachine(c, t);
            final int cap = c.r.pickInt(1, 1, 2, 3, 5, 8, 16, 31, 100);
            c.config(t.lib + "Vector", "cap=" + cap);
            m.create(cap);
            return m;
        }

        private void same(final Object want, final Object got, final String what) {
            if (lib.t.isRef()) {
                c.check(want == got, what + ": expected " + T.show(want) + " but was " + T.show(got));
            } else {
                c.eq(want, got, what);
            }
        }

        Object value() {
            return c.r.chance(4) ? lib.t.gen(c.r) : lib.t.tag(n++);
        }

        VectorMachine view(final Case d) {
            final VectorMachine m = new VectorMachine(d, lib.t);
            m.o = o;
            m.cap = cap;
            m.model.addAll(model);
            return m;
        }

        void append(final Object v) throws Throwable {
            c.op("append", v);
            final Object x = (Object) lib.append.invokeExact(o, v);
            model.add(v);
            peak = Math.max(peak, model.size());
            touch();
        }

        void ensure(final int s) throws Throwable {
            c.op("ensureSize", s);
            final Object x = (Object) lib.ensureSize.invokeExact(o, (Object) s);
            c.count("ensureSize");
            touch();
            if (s > 0 && model.size() < s) { // accommodated: reading is possible
                final Object y = (Object) lib.valueAt.invokeExact(o, (Object) (s - 1));
            }
            verify();
        }

        void clear() throws Throwable {
            c.op("clear");
            final Object x = (Object) lib.clear.invokeExact(o);
            model.clear();
            c.count("clear");
            verify();
        }

        void touch() throws Throwable {
            c.eq(model.size(), (Integer) (Object) lib.size.invokeExact(o), "size");
            c.check((Boolean) (Object) lib.isEmpty.invokeExact(o) == model.isEmpty(), "isEmpty");
            if (!model.isEmpty()) {
                at(model.size() - 1);
                at(c.r.nextInt(model.size()));
            }
        }

        private void at(final int i) throws Throwable {
            same(model.get(i), (Object) lib.valueAt.invokeExact(o, (Object) i), "valueAt(" + i + ")");
        }

        void verify() throws Throwable {
            touch();
            for (int i = 0; i < model.size(); i++) {
                at(i);
            }
            walk(!model.isEmpty() && c.r.chance(6) ? c.r.nextInt(model.size()) : -1);
            c.count("full comparisons");
        }

        /** forEach, with another one at the given visit. */
        private void walk(final int nestAt) throws Throwable {
            final int[] n = {0};
            final Consumer<Object> f = v -> {
                c.check(n[0] < model.size(), "forEach delivers more than " + model.size() + " elements");
                same(model.get(n[0]), v, "element " + n[0] + " of forEach");
                if (n[0]++ == nestAt) {
                    Lib.quietly(() -> walk(-1));
                    c.count("traversals within traversals");
                }
            };
            final Object x = (Object) lib.forEach.invokeExact(o, Lib.consumer(lib.t, f));
            c.eq(model.size(), n[0], "elements delivered by forEach");
        }

        void drive(final int total) throws Throwable {
            final Rng r = c.r;
            for (int i = 0; i < total; i++) {
                final int k = r.nextInt(1000);
                if (k < 960) {
                    append(value());
                } else if (k < 985) {
                    ensure(r.pickInt(0, 1, 2, model.size(), model.size() + 1, 2 * model.size() + 1,
                            r.nextInt(3000), model.size() / 2));
                } else if (k < 990) {
                    verify();
                } else if (r.chance(3)) {
                    clear();
                }
            }
            verify();
        }
    }

    private static int c14(final Ctx x) throws Throwable {
        x.rule = "A case is one history of append, ensureSize and clear on one vector (10 element types,"
                + " initial capacity drawn at random) compared with a reference list; non-trivial if"
                + " it made at least 10 calls and held at least 3 elements at once.";
        x.assume("single-threaded use; valueAt is only defined below size");
        x.parallel("vector", x.n(8000, 200000), c -> {
            final VectorMachine m = VectorMachine.random(c, T.ALL[c.index % 10]);
            m.drive(c.r.pickInt(20, 60, 300, 1000));
            c.nontrivial = c.events >= 10 && m.peak >= 3;
            if (m.peak > m.cap) {
                c.count("grown histories");
            }
        });
        x.parallel("large", x.n(10, 40), c -> {
            final VectorMachine m = VectorMachine.random(c, T.ALL[c.index % 10]);
            for (int i = 0; i < 300000; i++) {
                m.append(m.value());
            }
            m.verify();
            c.nontrivial = true;
        });
        x.parallel("soak", x.n(16, 90), c -> { // one collection for a very long time
            final VectorMachine m = VectorMachine.random(c, T.ALL[c.r.nextInt(10)]);
            m.drive(c.r.pickInt(70_000, 140_000));
            c.nontrivial = true;
            c.count("soaked collections");
        });
        Vast.vector(x);
        return x.finish("grown histories", "clear", "ensureSize", "vast collections");
    }

    // ------------------------------------------------------------------ stores

    static final class StoreLib {
        final T t;
        final MethodHandle ctor, get, set, capacity;
        final MethodHandle mctor, mget, mset, mcapacity;

        private StoreLib(final T t) {
            this.t = t;
            final Class<?> c = Lib.cls("store." + t.lib + "ChunkStore");
            ctor = Lib.ctor(c, int.class, int.class);
            get = Lib.m(c, "get" + t.lib, 1);
            set = Lib.m(c, "set" + t.lib, 2);
            capacity = Lib.m(c, "getCapacity", 0);
            final Class<?> d = Lib.cls("store." + t.lib + "ChunkMatrixStore");
            mctor = Lib.ctor(d, int.class, int.class, int.class);
            mget = Lib.m(d, "get" + t.lib, 2);
            mset = Lib.m(d, "set" + t.lib, 3);
            mcapacity = Lib.m(d, "getCapacity", 0);
        }

        static StoreLib of(final T t) {
            return Lib.cached("Store" + t, k -> new StoreLib(t));
        }
    }

    static final class StoreMachine {
        final Case c;
        final StoreLib lib;
        final Object o;
        final int fields; // 0 for a plain store
        final Map<Long, Object> model = new HashMap<>();
        final List<Long> cells = new ArrayList<>();
        int maxRow = -1;
        int lastCapacity;
        final int span; // rows in use
        long n;
        final int chunk;

        StoreMachine(final Case c, final T t, final int fields, final int init, final int chunk,
                final int span) throws Throwable {
            this.c = c;
            lib = StoreLib.of(t);
            this.chunk = chunk;
            this.fields = fields;
            this.span = span;
            o = fields != 0 ? (Object) lib.mctor.invokeExact((Object) init, (Object) chunk, (Object) fields)
                    : (Object) lib.ctor.invokeExact((Object) init, (Object) chunk);
            lastCapacity = capacity();
        }

        StoreMachine(final Case c, final T t, final boolean matrix) throws Throwable {
            this.c = c;
            lib = StoreLib.of(t);
            final Rng r = c.r;
            chunk = r.pickInt(matrix ? 2 : 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 33, 64, 100, 128, 1000);
            final int init = r.pickInt(matrix ? 1 : 0, 1, 2, 5, 10, 17, 64, 100, 500);
            fields = matrix ? r.pickInt(1, 1, 2, 3, 4, 5, 7, 8, 16, 17, 40, 200) : 0;
            span = r.pickInt(5, 40, 300, 3000);
            c.config(t.lib + (matrix ? "ChunkMatrixStore" : "ChunkStore"), "init=" + init,
                    "chunk=" + chunk, "fields=" + fields, "span=" + span);
            o = matrix ? (Object) lib.mctor.invokeExact((Object) init, (Object) chunk, (Object) fields)
                    : (Object) lib.ctor.invokeExact((Object) init, (Object) chunk);
            lastCapacity = capacity();
            c.check(lastCapacity >= init, "capacity " + lastCapacity + " below the initial size " + init);
        }

        private StoreMachine(final Case d, final StoreMachine s) {
            c = d;
            lib = s.lib;
            o = s.o;
            fields = s.fields;
            span = s.span;
            chunk = s.chunk;
            model.putAll(s.model);
            cells.addAll(s.cells);
            maxRow = s.maxRow;
            lastCapacity = s.lastCapacity;
        }

        StoreMachine view(final Case d) {
            return new StoreMachine(d, this);
        }

        int capacity() throws Throwable {
            return (Integer) (fields == 0 ? (Object) lib.capacity.invokeExact(o)
                    : (Object) lib.mcapacity.invokeExact(o));
        }

        Object get(final int row, final int f) throws Throwable {
            return fields == 0 ? (Object) lib.get.invokeExact(o, (Object) row)
                    : (Object) lib.mget.invokeExact(o, (Object) row, (Object) f);
        }

        void rawSet(final int row, final int f, final Object v) throws Throwable {
            if (fields == 0) {
                final Object x = (Object) lib.set.invokeExact(o, (Object) row, v);
            } else {
                final Object x = (Object) lib.mset.invokeExact(o, (Object) row, (Object) f, v);
            }
        }

        private long cell(final int row, final int f) {
            return (long) row << 32 | f;
        }

        void check(final int row, final int f) throws Throwable {
            final Object want = model.getOrDefault(cell(row, f), lib.t.def());
            final Object got = get(row, f);
            if (lib.t.isRef()) {
                c.check(want == got, at(row, f) + ": expected " + T.show(want) + " but was " + T.show(got));
            } else {
                c.eq(want, got, at(row, f));
            }
        }

        private String at(final int row, final int f) {
            return fields == 0 ? "get(" + row + ")" : "get(" + row + "," + f + ")";
        }

        void set(final int row, final int f) throws Throwable {
            final Object v = c.r.chance(3) ? lib.t.gen(c.r) : lib.t.tag(++n);
            c.op(fields == 0 ? "set(" + row + ")" : "set(" + row + "," + f + ")", v);
            rawSet(row, f, v);
            if (!model.containsKey(cell(row, f))) {
                cells.add(cell(row, f));
            }
            model.put(cell(row, f), v);
            maxRow = Math.max(maxRow, row);
            final int now = capacity();
            c.check(now > row, "capacity " + now + " does not cover row " + row);
            c.check(now >= lastCapacity, "capacity shrank from " + lastCapacity + " to " + now);
            if (now > lastCapacity) {
                c.count("grown");
            }
            lastCapacity = now;
            check(row, f);
            for (int i = 0; i < 3; i++) {
                final long q = cells.get(c.r.nextInt(cells.size()));
                check((int) (q >> 32), (int) q);
            }
            final int nf = fields == 0 ? 0 : c.r.nextInt(fields);
            check(c.r.nextInt(span + 10), nf);
            if (row > 0) {
                check(row - 1, nf);
            }
            check(row + 1, nf);
        }

        void refused() throws Throwable {
            final Rng r = c.r;
            int row = r.pickInt(-1, -2, -lastCapacity, -lastCapacity - 1, Integer.MIN_VALUE, -1 << 16,
                    -r.nextInt(100000) - 1);
            int f = fields == 0 ? 0 : r.nextInt(fields);
            if (fields > 0 && r.nextBoolean()) {
                f = r.pickInt(-1, fields, fields + 1, Integer.MIN_VALUE, Integer.MAX_VALUE, -fields);
                row = r.nextBoolean() ? r.nextInt(span) : row;
            }
            if (row >= 0 && (fields == 0 || f >= 0 && f < fields)) {
                row = -1;
            }
            boolean set = r.nextBoolean();
            final boolean beyond = fields > 2 && r.nextInt(3) == 0;
            if (beyond) { // cells have int indexes: fewer rows than that; their product may wrap to few
                final int wraps = 1 + r.nextInt((fields - 1) / 2);
                row = (int) Math.min(Integer.MAX_VALUE - 1, r.nextInt(8) == 0
                        ? Integer.MAX_VALUE / fields + r.nextInt(3)
                        : ((long) wraps << 32) / fields + r.nextInt(2 * span + 20));
                f = r.nextInt(fields);
                set = true;
            }
            c.op(set ? "set out of range" : "get out of range", row, f);
            String got = null;
            try {
                if (set) {
                    rawSet(row, f, lib.t.gen(r));
                } else {
                    get(row, f);
                }
            } catch (RuntimeException e) {
                got = e.getClass().getSimpleName();
            }
            c.check(got != null, (set ? "set" : "get") + "(" + row + (fields == 0 ? "" : "," + f)
                    + ") was accepted");
            c.check(fields == 0 || (f >= 0 && f < fields) || got.equals("RangeCheckException"),
                    "field " + f + " of " + fields + " refused with " + got);
            c.count(beyond ? "row beyond int cells refused" : row < 0 ? "negative index refused"
                    : "field refused");
            c.eq(lastCapacity, capacity(), "capacity after a refused call");
            verify();
        }

        void verify() throws Throwable {
            final int limit = Math.min(maxRow + 3, 400);
            for (int row = 0; row <= limit; row++) {
                for (int f = 0; f < Math.min(Math.max(1, fields), 20); f++) {
                    check(row, f);
                }
            }
            for (long q : cells) {
                check((int) (q >> 32), (int) q);
            }
            final int beyond = Math.max(lastCapacity, maxRow + 1);
            for (int d : new int[] {0, 1, 1000, 1 << 20}) {
                check(beyond + d, fields == 0 ? 0 : fields - 1);
            }
            check(Integer.MAX_VALUE, fields == 0 ? 0 : fields - 1);
            c.eq(lastCapacity, capacity(), "capacity after reading");
            c.count("full comparisons");
        }

        void drive(final int n) throws Throwable {
            final Rng r = c.r;
            final int pattern = r.nextInt(4);
            for (int i = 0; i < n; i++) {
                final int row;
                switch (pattern) {
                    case 0:
                        row = i % span;
                        break;
                    case 1:
                        row = span - 1 - i % span;
                        break;
                    case 2:
                        row = r.chance(4) ? Math.min(span - 1, Math.max(0, lastCapacity + r.range(-2, 2)))
                                : r.nextInt(span);
                        break;
                    default:
                        row = r.nextInt(span);
                }
                set(row, fields == 0 ? 0 : r.nextInt(fields));
                if (r.chance(50)) {
                    refused();
                }
            }
            verify();
        }
    }

    private static int stores(final Ctx x, final boolean matrix) throws Throwable {
        x.rule = "A case is one history of sets, gets and refused calls on one store (10 element types,"
                + " chunk size, initial size" + (matrix ? ", number of fields" : "")
                + " and index pattern drawn at random) compared with a reference map; non-trivial if"
                + " at least 5 different cells were set.";
        x.assume("single-threaded use");
        x.parallel("store", x.n(5000, 120000), c -> {
            final StoreMachine m = new StoreMachine(c, T.ALL[c.index % 10], matrix);
            m.drive(c.r.pickInt(10, 50, 200, 400));
            c.nontrivial = m.model.size() >= 5;
        });
        x.parallel("dense", x.n(300, 3000), c -> { // all cells, read back
            final StoreMachine m = new StoreMachine(c, T.ALL[c.index % 10], matrix);
            final int rows = Math.min(m.span, 300);
            final int fs = Math.max(1, m.fields);
            final boolean down = c.r.nextBoolean();
            for (int i = 0; i < rows; i++) {
                for (int f = 0; f < Math.min(fs, 20); f++) {
                    m.set(down ? rows - 1 - i : i, f);
                }
            }
            m.verify();
            c.nontrivial = m.model.size() >= 5;
        });
        x.serial("sparse", x.n(20, 60), c -> { // indexes beyond the precision of float
            final T t = T.ALL[c.index % 10];
            final Rng r = c.r;
            final boolean small = t == T.BYTE || t == T.BOOL;
            final int top = (small ? 26 : 24) + x.n(0, 1);
            final int fields = matrix ? r.pickInt(1, 3, 7, 64) : 0;
            final int per = Math.max(1, fields);
            final int chunk = r.pickInt(1 << 10, 1 << 12, 5000, 1 << 15);
            final int init = r.pickInt(1, 100);
            c.config(t.lib + (matrix ? "ChunkMatrixStore" : "ChunkStore"), "init=" + init, "chunk=" + chunk,
                    "fields=" + fields, "sparse");
            final StoreMachine m = new StoreMachine(c, t, fields, init, chunk, 1 << top);
            for (int p = 24; p <= top; p++) {
                final int[] at = {-1, 0, 1, r.nextInt(1000)};
                for (int k = r.nextInt(3); k < 4; k++) {
                    final int cell = (1 << p) + at[k];
                    m.set(cell / per, fields == 0 ? 0 : cell % per);
                    if (r.nextBoolean()) {
                        m.set((cell >> 1) / per, fields == 0 ? 0 : (cell >> 1) % per);
                    }
                }
            }
            m.verify();
            c.nontrivial = true;
            c.count("sparse indexes");
        });
        if (matrix) {
            x.parallel("constructors", x.n(300, 2000), c -> {
                final StoreLib lib = StoreLib.of(T.ALL[c.index % 10]);
                final Rng r = c.r;
                final int[] a = {r.pickInt(1, 5, 100), r.pickInt(2, 3, 8), r.pickInt(1, 3)};
                final int[] min = {1, 2, 1};
                final int bad = r.nextInt(3);
                a[bad] = r.pickInt(min[bad] - 1, -1, 0, Integer.MIN_VALUE, -r.nextInt(1000) - 1);
                c.config(lib.t + " constructor", a[0], a[1], a[2]);
                c.op("new " + a[0] + "," + a[1] + "," + a[2]);
                boolean thrown = false;
                try {
                    final Object o = (Object) lib.mctor.invokeExact((Object) a[0], (Object) a[1], (Object) a[2]);
                } catch (RuntimeException e) {
                    thrown = e.getClass().getSimpleName().equals("InitializationException");
                    c.check(thrown, "constructor refused with " + e);
                }
                c.check(thrown, "constructor accepts argument " + bad + " = " + a[bad]);
                c.count("constructor refused");
            });
            Vast.matrix(x);
            return x.finish("vast collections", "grown", "negative index refused", "field refused",
                    "row beyond int cells refused", "constructor refused",
                    "sparse indexes");
        }
        Vast.store(x);
        return x.finish("grown", "negative index refused", "sparse indexes", "vast collections");
    }

    static void register() {
        Main.CHECKS.put("C11", SeqChecks::c11);
        Main.CHECKS.put("C12", SeqChecks::c12);
        Main.CHECKS.put("C14", SeqChecks::c14);
        Main.CHECKS.put("C15", x -> stores(x, false));
        Main.CHECKS.put("C16", x -> stores(x, true));
    }

    // ------------------------------------------------------------------ C31

    static void cleared(final Ctx x) {
        x.parallel("deque", x.n(1500, 30000), c -> {
            final DequeMachine a = DequeMachine.random(c, T.ALL[c.index % 10]);
            a.drive(c.r.nextInt(120));
            final int more = c.r.nextInt(40);
            for (int i = 0; i < more; i++) {
                a.add(c.r.nextBoolean(), a.value());
            }
            a.clear();
            a.drive(c.r.nextInt(120)); // the model of an empty deque is the model of a new one
            c.nontrivial = a.peak > 1;
            c.count("deques");
        });
        x.parallel("vector", x.n(1500, 30000), c -> {
            final VectorMachine a = VectorMachine.random(c, T.ALL[c.index % 10]);
            a.drive(c.r.nextInt(120));
            a.clear();
            a.drive(c.r.nextInt(120));
            c.nontrivial = a.peak > 1;
            c.count("vectors");
        });
        x.parallel("hydra", x.n(1500, 30000), c -> {
            final Rng r = c.r;
            final HydraMachine a = HydraMachine.random(c, T.ALL[c.index % 10]);
            a.drive(r.nextInt(150));
            final int more = c.index % 200 == 199 ? r.pickInt(5000, 70_000) : r.nextInt(30);
            for (int i = 0; i < more; i++) {
                a.add(r.nextInt(a.lists), r.nextBoolean(), a.value());
            }
            a.clear();
            final HydraMachine b = new HydraMachine(c, a.lib.t);
            b.lists = a.lists;
            b.create(a.initialQueues, a.cap);
            final int n = more > 1000 ? 2 * more : r.nextInt(150);
            for (int i = 0; i < n; i++) {
                final int id = r.nextInt(a.lists);
                final boolean first = r.nextBoolean();
                if (r.nextInt(5) < 3) {
                    final Object v = a.value();
                    final int ea = a.add(id, first, v);
                    final int eb = b.add(id, first, v);
                    c.eq(eb, ea, "entry given by the cleared and (expected) the new hydra deque");
                } else {
                    a.remove(id, first);
                    b.remove(id, first);
                }
                if (r.chance(20) && n < 1000) {
                    a.verify();
                }
            }
            a.verify();
            b.verify();
            c.nontrivial = a.peak > 1;
            c.count("hydra twins");
        });
    }

    // ------------------------------------------------------------------ C32

    private interface Call {
        void run() throws Throwable;
    }

    private static void mustThrow(final Case c, final String what, final Call call) throws Throwable {
        boolean thrown = false;
        try {
            call.run();
        } catch (Violation v) {
            throw v;
        } catch (RuntimeException e) {
            thrown = true;
        }
        c.check(thrown, what + " succeeds");
    }

    static void failing(final Ctx x) {
        x.parallel("deque", x.n(1200, 25000), c -> {
            final Rng r = c.r;
            final DequeMachine m = DequeMachine.random(c, T.ALL[c.index % 10]);
            for (int i = 0; i < 20; i++) {
                m.drive(r.nextInt(20));
                final int n = m.model.size();
                if (n == 0 || r.chance(6)) {
                    while (!m.model.isEmpty()) {
                        m.remove(r.nextBoolean());
                    }
                    for (int k = 0; k < 3; k++) {
                        m.remove(r.nextBoolean()); // refused, compared afterwards
                    }
                } else {
                    final int at = r.nextInt(n);
                    final int[] seen = {0};
                    c.op("consumer throws at visit " + at);
                    mustThrow(c, "forEach with a failing consumer", () -> {
                        final Object f = Lib.consumer(m.lib.t, v -> {
                            if (seen[0]++ == at) {
                                throw new HashChecks.Boom();
                            }
                        });
                        final Object y = (Object) m.lib.forEach.invokeExact(m.o, f);
                    });
                    c.count("consumer failures");
                }
                m.verify();
            }
            c.nontrivial = m.peak > 1;
        });
        x.parallel("hydra", x.n(1200, 25000), c -> {
            final Rng r = c.r;
            final HydraMachine m = HydraMachine.random(c, T.ALL[c.index % 10]);
            for (int i = 0; i < 20; i++) {
                m.drive(r.nextInt(20));
                final int id = r.chance(3) ? r.pickInt(-1, Integer.MIN_VALUE, Integer.MAX_VALUE, m.lists)
                        : r.nextInt(m.lists);
                if (m.list(id).isEmpty()) {
                    m.remove(id, r.nextBoolean());
                    c.count("refused hydra calls");
                    if (r.chance(3)) { // a negative list cannot be added to
                        final int bad = r.pickInt(-1, -5, Integer.MIN_VALUE);
                        c.op("add to list " + bad);
                        mustThrow(c, "adding to list " + bad, () -> {
                            final Object y = r.nextBoolean()
                                    ? (Object) m.lib.addFirst.invokeExact(m.o, (Object) bad, m.value())
                                    : (Object) m.lib.addLast.invokeExact(m.o, (Object) bad, m.value());
                        });
                    }
                } else {
                    final int at = r.nextInt(m.list(id).size());
                    final int[] seen = {0};
                    c.op("consumer throws at visit " + at + " of list " + id);
                    mustThrow(c, "iteration with a failing consumer", () -> {
                        final Object it = (Object) m.lib.iterator.invokeExact(m.o, (Object) id);
                        Lib.It.of(m.lib.t).forEach(it, v -> {
                            if (seen[0]++ == at) {
                                throw new HashChecks.Boom();
                            }
                        });
                    });
                    c.count("consumer failures");
                }
                m.verify();
            }
            c.nontrivial = m.peak > 1;
        });
        x.parallel("vector", x.n(800, 15000), c -> {
            final Rng r = c.r;
            final VectorMachine m = VectorMachine.random(c, T.ALL[c.index % 10]);
            for (int i = 0; i < 15; i++) {
                m.drive(r.nextInt(30));
                if (r.nextBoolean() && !m.model.isEmpty()) {
                    final int at = r.nextInt(m.model.size());
                    final int[] seen = {0};
                    c.op("consumer throws at visit " + at);
                    mustThrow(c, "forEach with a failing consumer", () -> {
                        final Object f = Lib.consumer(m.lib.t, v -> {
                            if (seen[0]++ == at) {
                                throw new HashChecks.Boom();
                            }
                        });
                        final Object y = (Object) m.lib.forEach.invokeExact(m.o, f);
                    });
                    c.count("consumer failures");
                } else {
                    final int bad = r.pickInt(-1, Integer.MIN_VALUE, Integer.MAX_VALUE);
                    c.op("valueAt", bad);
                    mustThrow(c, "valueAt(" + bad + ")", () -> {
                        final Object y = (Object) m.lib.valueAt.invokeExact(m.o, (Object) bad);
                    });
                }
                m.verify();
            }
            c.nontrivial = m.peak > 1;
        });
        for (int k = 0; k < 2; k++) {
            final boolean matrix = k == 1;
            x.parallel(matrix ? "matrix" : "store", x.n(600, 10000), c -> {
                final StoreMachine m = new StoreMachine(c, T.ALL[c.index % 10], matrix);
                for (int i = 0; i < 10; i++) {
                    m.drive(c.r.nextInt(15));
                    m.refused();
                    c.count("refused store calls");
                }
                c.nontrivial = m.model.size() > 1;
            });
        }
    }
}
