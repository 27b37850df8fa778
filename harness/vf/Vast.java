package vf;

import com.bytefacets.collections.EntryIterator;
import com.bytefacets.collections.bi.CompactManyToMany;
import com.bytefacets.collections.bi.CompactOneToMany;
import com.bytefacets.collections.functional.LongIterator;
import com.bytefacets.collections.hash.IntIndexedSet;
import com.bytefacets.collections.hash.LongIntIndexedMap;
import com.bytefacets.collections.heap.IntLongHeap;
import com.bytefacets.collections.queue.LongDeque;
import com.bytefacets.collections.queue.LongHydraDeque;
import com.bytefacets.collections.store.IntChunkMatrixStore;
import com.bytefacets.collections.store.LongChunkStore;
import com.bytefacets.collections.types.IntType;
import com.bytefacets.collections.vector.LongVector;
import java.util.Arrays;

/** Single collections of millions of elements, whose contents are known by arithmetic. */
final class Vast {
    private Vast() {}

    /** Chunk stores copy the references to all their chunks whenever they grow, by design. */
    private static final int GROWTHS = 30_000;

    private static int size(final Ctx x, final Case c) {
        final int max = x.thorough ? 24 : 22;
        return (1 << c.r.range(max - 3, max)) + c.r.nextInt(1 << max - 2);
    }

    private static int cases(final Ctx x) {
        return x.thorough ? 12 : 2;
    }

    private static void done(final Case c, final int n) {
        c.extra += n;
        c.checks += n;
        c.nontrivial = true;
        c.count("vast collections");
    }

    // ---- hash

    /** A bijection on 32 bits, or injective on 64. */
    private static final class Keys {
        final long a;
        final long b;
        final boolean wide;

        Keys(final Rng r, final boolean wide) {
            a = r.pick(1L, -1L, r.nextLong() | 1, (r.nextLong() | 1) & 0xfffff, 1L << 16 | 1);
            b = r.pick(0L, -1L << 20, r.nextLong());
            this.wide = wide;
        }

        long of(final long i) {
            return wide ? a * i + b : (int) (a * i + b);
        }

        @Override
        public String toString() {
            return a + "*i+" + b;
        }
    }

    private interface Hash {
        int add(long k);

        int lookup(long k);

        int remove(long k);

        void removeAt(int e);

        long keyAt(int e);

        int size();

        void clear();

        EntryIterator iterator();

        default void set(final int e, final int v) {}

        default int get(final int e) {
            return 0;
        }

        default Hash copy(final Rng r) {
            return null;
        }
    }

    private static Hash set(final int cap, final double lf) {
        return set(new IntIndexedSet(cap, lf));
    }

    private static Hash set(final IntIndexedSet s) {
        return new Hash() {
            public int add(final long k) {
                return s.add((int) k);
            }

            public int lookup(final long k) {
                return s.lookupEntry((int) k);
            }

            public int remove(final long k) {
                return s.remove((int) k);
            }

            public void removeAt(final int e) {
                s.removeAt(e);
            }

            public long keyAt(final int e) {
                return s.getKeyAt(e);
            }

            public int size() {
                return s.size();
            }

            public void clear() {
                s.clear();
            }

            public EntryIterator iterator() {
                return s.iterator();
            }

            public Hash copy(final Rng r) {
                final IntIndexedSet t = new IntIndexedSet(r.pickInt(1, 16, 1 << 20));
                t.add(5);
                t.copyFrom(s);
                return Vast.set(t);
            }
        };
    }

    private static Hash map(final LongIntIndexedMap s) {
        return new Hash() {
            public int add(final long k) {
                return s.add(k);
            }

            public int lookup(final long k) {
                return s.lookupEntry(k);
            }

            public int remove(final long k) {
                return s.remove(k);
            }

            public void removeAt(final int e) {
                s.removeAt(e);
            }

            public long keyAt(final int e) {
                return s.getKeyAt(e);
            }

            public int size() {
                return s.size();
            }

            public void clear() {
                s.clear();
            }

            public EntryIterator iterator() {
                return s.iterator();
            }

            public void set(final int e, final int v) {
                s.putValueAt(e, v);
            }

            public int get(final int e) {
                return s.getValueAt(e);
            }

            public Hash copy(final Rng r) {
                final LongIntIndexedMap t = new LongIntIndexedMap(r.pickInt(1, 16, 1 << 20));
                t.put(5, 5);
                t.copyFrom(s);
                return Vast.map(t);
            }
        };
    }

    /** Keys ks.of(i) are present at entries at[i], or absent if that is -1. */
    private static void verify(final Case c, final Hash h, final Keys ks, final int[] at, final int live,
            final boolean values, final String when) {
        c.eq(live, h.size(), "size " + when);
        for (int i = 0; i < at.length; i++) {
            final long k = ks.of(i);
            final int e = h.lookup(k);
            if (e != at[i]) {
                c.fail("lookupEntry(" + k + ") is " + e + " instead of " + at[i] + " " + when);
            }
            if (e >= 0 && (h.keyAt(e) != k || values && h.get(e) != i)) {
                c.fail("entry " + e + " holds " + h.keyAt(e) + "/" + h.get(e) + " instead of " + k + " " + when);
            }
            if ((i & 0xfffff) == 0) {
                c.tick();
            }
        }
        final long[] seen = new long[(at.length >> 6) + 1];
        final EntryIterator it = h.iterator();
        int n = 0;
        while (it.next()) {
            final int e = it.currentEntry();
            if (e < 0 || e >= at.length || (seen[e >> 6] & 1L << e) != 0) {
                c.fail("the iterator delivers entry " + e + " out of range or twice " + when);
            }
            seen[e >> 6] |= 1L << e;
            if (at[(int) index(h, ks, e, at)] != e) {
                c.fail("the iterator delivers entry " + e + " which holds no key " + when);
            }
            if ((++n & 0xfffff) == 0) {
                c.tick();
            }
        }
        c.eq(live, n, "elements delivered by the iterator " + when);
        c.checks += 4L * at.length;
    }

    private static long index(final Hash h, final Keys ks, final int e, final int[] at) {
        final long d = h.keyAt(e) - ks.b; // i = (key - b) / a
        long inv = ks.a; // inverse of an odd number modulo 2^64 by Newton's method
        for (int i = 0; i < 6; i++) {
            inv *= 2 - ks.a * inv;
        }
        final long i = ks.wide ? d * inv : (int) (d * inv);
        return i >= 0 && i < at.length ? i : 0;
    }

    static void hash(final Ctx x) {
        x.serial("vast", cases(x), c -> {
            final Rng r = c.r;
            final boolean values = (c.index & 1) == 1;
            final int n = size(x, c) * 3 / 4;
            final double lf = r.pick(0.75, 1.0, 0.5, 0.9);
            final int cap = r.pickInt(1, 16, 1000, n);
            Hash h = values ? map(new LongIntIndexedMap(cap, lf)) : set(cap, lf);
            final Keys ks = new Keys(r, values);
            c.config(values ? "LongIntIndexedMap" : "IntIndexedSet", "n=" + n, "cap=" + cap, "lf=" + lf,
                    "keys=" + ks);
            final int[] at = new int[n + n / 8];
            Arrays.fill(at, -1);
            c.op("fill");
            for (int i = 0; i < n; i++) {
                final int e = h.add(ks.of(i));
                if (e != i) {
                    c.fail("add of the new key " + ks.of(i) + " returns entry " + e + " instead of " + i);
                }
                at[i] = e;
                h.set(e, i);
                if ((i & 0xfffff) == 0) {
                    c.tick();
                }
            }
            verify(c, h, ks, at, n, values, "after filling");
            c.op("remove some");
            int live = n;
            final int step = r.range(2, 5);
            for (int i = r.nextInt(step); i < n; i += step) {
                if ((i & 1) == 0) {
                    final int e = h.remove(ks.of(i));
                    if (e != at[i]) {
                        c.fail("remove(" + ks.of(i) + ") returns " + e + " instead of " + at[i]);
                    }
                } else {
                    h.removeAt(at[i]);
                }
                at[i] = -1;
                live--;
            }
            verify(c, h, ks, at, live, values, "after removals");
            if (r.nextBoolean()) {
                c.op("continue with a copy");
                final Hash from = h;
                h = from.copy(r);
                from.clear();
                from.add(ks.of(n - 1));
                verify(c, h, ks, at, live, values, "of the copy");
            }
            c.op("add others");
            final long[] taken = new long[(n >> 6) + 1];
            for (int i = 0; i < n; i++) {
                if (at[i] >= 0) {
                    taken[at[i] >> 6] |= 1L << at[i];
                }
            }
            int free = n - live;
            int fresh = n;
            for (int i = n; i < at.length; i++) {
                final int e = h.add(ks.of(i));
                if (free > 0) {
                    if (e < 0 || e >= n || (taken[e >> 6] & 1L << e) != 0) {
                        c.fail("a new key gets entry " + e + " while " + free + " are free below " + n);
                    }
                    taken[e >> 6] |= 1L << e;
                    free--;
                } else if (e != fresh++) {
                    c.fail("a new key gets entry " + e + " instead of " + (fresh - 1));
                }
                if (values && h.get(e) != 0) {
                    c.fail("the new entry " + e + " starts with the value " + h.get(e));
                }
                at[i] = e;
                h.set(e, i);
                live++;
            }
            verify(c, h, ks, at, live, values, "after further additions");
            c.op("clear");
            h.clear();
            Arrays.fill(at, -1);
            verify(c, h, ks, at, 0, values, "after clear");
            for (int i = 0; i < 1000; i++) {
                at[i] = h.add(ks.of(i));
                c.eq(i, at[i], "entry handed out after clear");
                h.set(i, i);
            }
            verify(c, h, ks, at, 1000, values, "after clear and additions");
            done(c, n);
        });
    }

    /** Marks every index delivered; each once, and only those in live. */
    private static final class Marks {
        final Case c;
        final String what;
        final int[] at;
        final long[] seen;
        int n;

        Marks(final Case c, final String what, final int[] at) {
            this.c = c;
            this.what = what;
            this.at = at;
            seen = new long[(at.length >> 6) + 1];
        }

        void index(final long i) {
            if (i < 0 || i >= at.length || at[(int) i] < 0) {
                c.fail(what + " delivers something not in the collection, at " + n);
            }
            final int w = (int) i >> 6;
            if ((seen[w] & 1L << i) != 0) {
                c.fail(what + " delivers element " + i + " twice");
            }
            seen[w] |= 1L << i;
            if ((++n & 0xfffff) == 0) {
                c.tick();
            }
        }

        void finish(final int live) {
            c.eq(live, n, "elements delivered by " + what);
            c.checks += n;
        }
    }

    private static long inverse(final Keys ks, final long k) {
        final long d = k - ks.b;
        long inv = ks.a;
        for (int i = 0; i < 6; i++) {
            inv *= 2 - ks.a * inv;
        }
        return ks.wide ? d * inv : (int) (d * inv);
    }

    static void traverse(final Ctx x) {
        x.serial("vast", cases(x), c -> {
            final Rng r = c.r;
            final boolean values = (c.index & 1) == 1;
            final int n = size(x, c) / 2;
            final double lf = r.pick(0.75, 1.0, 0.5, 0.9);
            final int cap = r.pickInt(1, 16, n);
            final Keys ks = new Keys(r, values);
            c.config(values ? "LongIntIndexedMap" : "IntIndexedSet", "n=" + n, "cap=" + cap, "lf=" + lf,
                    "keys=" + ks);
            final IntIndexedSet set = values ? null : new IntIndexedSet(cap, lf);
            final LongIntIndexedMap map = values ? new LongIntIndexedMap(cap, lf) : null;
            final Hash h = values ? map(map) : set(set);
            final int[] at = new int[n]; // entry of key i or -1
            final int[] index = new int[n]; // i of the key at an entry
            c.op("fill");
            for (int i = 0; i < n; i++) {
                at[i] = h.add(ks.of(i));
                index[at[i]] = i;
                h.set(at[i], ~i);
            }
            int live = n;
            for (int round = 0; round < 3; round++) {
                c.op("forEach", round);
                final Marks keys = new Marks(c, "forEach", at);
                if (values) {
                    map.forEach(k -> keys.index(inverse(ks, k)));
                } else {
                    set.forEach(k -> keys.index(inverse(ks, k)));
                }
                keys.finish(live);
                final Marks entries = new Marks(c, "forEachEntry", at);
                if (values) {
                    map.forEachEntry(e -> entries.index(index[e]));
                } else {
                    set.forEachEntry(e -> entries.index(index[e]));
                }
                entries.finish(live);
                if (values) {
                    final Marks vals = new Marks(c, "forEachValue", at);
                    map.forEachValue(v -> vals.index(~v));
                    vals.finish(live);
                }
                c.op("iterate and remove", round);
                final int step = round == 2 ? 1 : r.range(1, 6);
                final int phase = r.nextInt(step);
                final Marks it = new Marks(c, "the iterator", at);
                final EntryIterator i = h.iterator();
                int removed = 0;
                final int before = live;
                while (i.next()) {
                    final int e = i.currentEntry();
                    final int k = index[e];
                    it.index(k);
                    if (it.n % step == phase) {
                        if (h.keyAt(e) != ks.of(k)) {
                            c.fail("entry " + e + " under the iterator holds the key " + h.keyAt(e));
                        }
                        i.remove();
                        at[k] = -2 - e; // seen already
                        removed++;
                    }
                }
                it.finish(before);
                live -= removed;
                c.eq(live, h.size(), "size after removing " + removed + " under the iterator");
                for (int k = 0; k < n; k++) {
                    final int e = h.lookup(ks.of(k));
                    if (e != Math.max(at[k], -1)) {
                        c.fail("lookupEntry(" + ks.of(k) + ") is " + e + " instead of " + at[k]
                                + " after removals under the iterator");
                    }
                }
                if (round < 2) {
                    c.op("add again", round);
                    final int again = r.range(2, 4);
                    for (int k = 0; k < n; k += again) {
                        if (at[k] < 0) {
                            at[k] = h.add(ks.of(k));
                            if (at[k] < 0 || at[k] >= n) {
                                c.fail("a new key gets entry " + at[k] + " while others below are free");
                            }
                            index[at[k]] = k;
                            h.set(at[k], ~k);
                            live++;
                        }
                    }
                }
                c.tick();
            }
            c.eq(0, h.size(), "size after removing all under the iterator");
            c.check(!h.iterator().next(), "the iterator of an emptied collection delivers something");
            done(c, n);
        });
    }

    // ---- heap

    static void heap(final Ctx x) {
        x.serial("vast", cases(x), c -> {
            final Rng r = c.r;
            final int n = size(x, c) / 2;
            final IntLongHeap h = new IntLongHeap(r.pickInt(1, 16, 1000, n));
            final int shift = r.pickInt(0, 0, 8, 24);
            final long a = r.nextLong() | 1;
            c.config("IntLongHeap", "n=" + n, "shift=" + shift);
            final int[] key = new int[n];
            final boolean[] live = new boolean[n];
            c.op("fill");
            int min = Integer.MAX_VALUE;
            for (int i = 0; i < n; i++) {
                key[i] = (int) (a * i * i >> 16) >> shift;
                final int e = h.insert(key[i], i);
                if (e != i) {
                    c.fail("insert returns entry " + e + " instead of " + i);
                }
                live[i] = true;
                min = Math.min(min, key[i]);
                if ((i & 0xffff) == 0) {
                    c.eq(min, h.getKeyAt(h.peek()), "least key of " + (i + 1));
                }
            }
            c.tick();
            c.op("remove and reset some");
            int size = n;
            for (int i = r.nextInt(5); i < n; i += r.range(1, 8)) {
                if (r.nextInt(3) == 0) {
                    key[i] = (int) r.nextLong() >> shift;
                    h.resetKey(i, key[i]);
                } else {
                    h.removeAt(i);
                    live[i] = false;
                    size--;
                }
                if ((i & 0xffff) == 0) {
                    c.tick();
                }
            }
            content(c, h, key, live, size);
            final boolean desc = r.nextBoolean();
            if (desc) {
                c.op("setComparator");
                h.setComparator(IntType.Desc);
                content(c, h, key, live, size);
            }
            c.op("drain");
            long last = desc ? Long.MAX_VALUE : Long.MIN_VALUE;
            while (!h.isEmpty()) {
                final int e = h.peek();
                if (e < 0 || e >= n || !live[e]) {
                    c.fail("peek returns entry " + e + ", which is not live");
                }
                final int k = h.getKeyAt(e);
                if (k != key[e] || h.getValueAt(e) != e || (desc ? k > last : k < last)) {
                    c.fail("entry " + e + " with key " + k + " and value " + h.getValueAt(e)
                            + " is delivered after key " + last + ", inserted with key " + key[e]);
                }
                last = k;
                h.removeAt(e);
                live[e] = false;
                size--;
                if ((size & 0xffff) == 0) {
                    c.tick();
                }
            }
            c.eq(0, size, "elements not delivered");
            final boolean[] again = new boolean[n];
            for (int i = 0; i < n; i++) {
                final int e = h.insert(i);
                if (e < 0 || e >= n || again[e] || h.getValueAt(e) != 0) {
                    c.fail("insertion " + i + " into the drained heap gets entry " + e);
                }
                again[e] = true;
            }
            done(c, n);
        });
    }

    private static void content(final Case c, final IntLongHeap h, final int[] key, final boolean[] live,
            final int size) {
        c.eq(size, h.getSize(), "size");
        for (int e = 0; e < key.length; e++) {
            if (h.isValidEntry(e) != live[e] || live[e] && (h.getKeyAt(e) != key[e] || h.getValueAt(e) != e)) {
                c.fail("entry " + e + " is valid: " + h.isValidEntry(e) + " with key " + h.getKeyAt(e)
                        + " and value " + h.getValueAt(e) + ", but expected " + live[e] + "/" + key[e]);
            }
        }
        final int[] n = {0};
        h.forEachEntry(e -> n[0]++);
        c.eq(size, n[0], "entries delivered");
        c.checks += 3L * key.length;
        c.tick();
    }

    // ---- sequences

    static void deque(final Ctx x) {
        x.serial("vast", cases(x), c -> {
            final Rng r = c.r;
            final int n = size(x, c);
            final LongDeque d = new LongDeque(r.pickInt(1, 2, 16, 1000));
            c.config("LongDeque", "n=" + n);
            long first = 0; // holds first..last-1
            long last = 0;
            final int target = n;
            for (int round = 0; round < 12; round++) {
                final int count = round < 6 ? target / 4 : target / 3;
                final boolean grow = round < 6;
                final boolean front = r.nextBoolean();
                c.op((grow ? "add " : "remove ") + count + (front ? " at the front" : " at the back"));
                for (int i = 0; i < count && (grow || last > first); i++) {
                    if (grow) {
                        if (front) {
                            d.addFirst(--first);
                        } else {
                            d.addLast(last++);
                        }
                    } else {
                        final long want = front ? first++ : --last;
                        final long got = front ? d.removeFirst() : d.removeLast();
                        if (want != got) {
                            c.fail("removal gives " + got + " instead of " + want);
                        }
                    }
                }
                c.eq((int) (last - first), d.size(), "size");
                final long[] next = {first};
                d.forEach(v -> {
                    if (v != next[0]) {
                        c.fail("forEach delivers " + v + " instead of " + next[0]);
                    }
                    next[0]++;
                });
                c.eq(last, next[0], "end of forEach");
                c.checks += last - first;
                c.tick();
            }
            done(c, n);
        });
    }

    static void hydra(final Ctx x) {
        x.serial("vast", cases(x), c -> {
            final Rng r = c.r;
            final int n = size(x, c);
            final int lists = r.pickInt(1, 3, 1000, 1 << 18);
            final LongHydraDeque d = new LongHydraDeque(r.pickInt(1, 16), r.pickInt(1, 16, 1000));
            c.config("LongHydraDeque", "n=" + n, "lists=" + lists);
            final int[] first = new int[lists];
            final int[] last = new int[lists];
            int size = 0;
            for (int round = 0; round < 3; round++) {
                c.op("add " + n);
                for (int i = 0; i < n; i++) {
                    final int id = r.nextInt(lists);
                    if ((i * 7 & 8) == 0) {
                        d.addFirst(id, value(id, --first[id]));
                    } else {
                        d.addLast(id, value(id, last[id]++));
                    }
                    size++;
                }
                lists(c, d, first, last, size);
                final int less = round == 2 ? Integer.MAX_VALUE : r.nextInt(n);
                c.op("remove " + less);
                for (int i = 0; i < less && size > 0; i++) {
                    int id = r.nextInt(lists);
                    while (first[id] == last[id]) {
                        id = (id + 1) % lists;
                    }
                    final boolean front = (i & 4) == 0;
                    final long want = value(id, front ? first[id]++ : --last[id]);
                    final long got = front ? d.removeFirst(id) : d.removeLast(id);
                    if (got != want) {
                        c.fail("removal from list " + id + " gives " + got + " instead of " + want);
                    }
                    size--;
                    if ((i & 0xffff) == 0) {
                        c.tick();
                    }
                }
                lists(c, d, first, last, size);
            }
            done(c, n);
        });
    }

    private static long value(final int id, final int i) {
        return (long) id << 32 | i & 0xffffffffL;
    }

    private static void lists(final Case c, final LongHydraDeque d, final int[] first, final int[] last,
            final int size) {
        c.eq(size, d.size(), "total size");
        LongIterator it = null;
        LongIterator back = null;
        for (int id = 0; id < first.length; id++) {
            if (d.size(id) != last[id] - first[id]) {
                c.fail("size of list " + id + " is " + d.size(id) + " instead of " + (last[id] - first[id]));
            }
            it = d.iterator(id, it);
            back = d.reverseIterator(id, back);
            int j = last[id];
            for (int i = first[id]; i < last[id]; i++) {
                final long v = it.hasNext() ? it.next() : -1L;
                final long w = back.hasNext() ? back.next() : -1L;
                if (v != value(id, i) || w != value(id, --j)) {
                    c.fail("iterators of list " + id + " deliver " + v + " and " + w + " at " + (i - first[id]));
                }
            }
            if (it.hasNext() || back.hasNext()) {
                c.fail("iterators of list " + id + " go on");
            }
            if ((id & 0xffff) == 0) {
                c.tick();
            }
        }
        c.checks += 2L * size;
    }

    static void vector(final Ctx x) {
        x.serial("vast", cases(x), c -> {
            final Rng r = c.r;
            final int n = size(x, c) * 2;
            final LongVector v = new LongVector(r.pickInt(1, 2, 16, 1000));
            c.config("LongVector", "n=" + n);
            for (int i = 0; i < n; i++) {
                v.append(i * 0x9E3779B97F4A7C15L);
                if ((i & 0x1fffff) == 12345) {
                    v.ensureSize(r.nextInt(2 * i));
                }
            }
            c.eq(n, v.size(), "size");
            for (int i = 0; i < n; i++) {
                if (v.valueAt(i) != i * 0x9E3779B97F4A7C15L) {
                    c.fail("value " + i + " is " + v.valueAt(i));
                }
            }
            c.checks += n;
            done(c, n);
        });
    }

    static void store(final Ctx x) {
        x.serial("vast", cases(x), c -> {
            final Rng r = c.r;
            final int most = size(x, c) * 2;
            final int chunk = r.pickInt(16, 100, 1 << 10, 3000, 1 << 16);
            final int n = Math.min(most, chunk * GROWTHS);
            final LongChunkStore s = new LongChunkStore(r.pickInt(1, 1000), chunk);
            c.config("LongChunkStore", "n=" + n, "chunk=" + chunk);
            for (int i = 0; i < n; i += 2) {
                s.setLong(i, i * 0x9E3779B97F4A7C15L);
                if ((i & 0xffffe) == 0) {
                    c.tick();
                }
            }
            for (int i = n - 1 | 1; i > 0; i -= 4) {
                s.setLong(i, i * 0x9E3779B97F4A7C15L);
            }
            c.tick();
            for (int i = 0; i < n; i++) {
                final boolean set = (i & 1) == 0 || ((n - 1 | 1) - i & 3) == 0;
                if (s.getLong(i) != (set ? i * 0x9E3779B97F4A7C15L : 0)) {
                    c.fail("get(" + i + ") is " + s.getLong(i));
                }
            }
            c.checks += n;
            done(c, n);
        });
    }

    static void matrix(final Ctx x) {
        x.serial("vast", cases(x), c -> {
            final Rng r = c.r;
            final int fields = r.pickInt(1, 3, 7, 16, 33);
            final int most = size(x, c) * 2;
            final int chunk = r.pickInt(16, 100, 1 << 10, 3000);
            final int n = Math.min(most, chunk * GROWTHS) / fields;
            final IntChunkMatrixStore s = new IntChunkMatrixStore(r.pickInt(1, 1000), chunk, fields);
            c.config("IntChunkMatrixStore", "n=" + n, "chunk=" + chunk, "fields=" + fields);
            for (int i = 0; i < n; i++) {
                for (int f = i % 2; f < fields; f += 2) {
                    s.setInt(i, f, (i * 64 + f) * 0x9E3779B1);
                }
            }
            c.tick();
            for (int i = 0; i < n; i++) {
                for (int f = 0; f < fields; f++) {
                    if (s.getInt(i, f) != (f % 2 == i % 2 ? (i * 64 + f) * 0x9E3779B1 : 0)) {
                        c.fail("get(" + i + ", " + f + ") is " + s.getInt(i, f));
                    }
                }
            }
            c.checks += (long) n * fields;
            done(c, n);
        });
    }

    // ---- bidirectional

    static void bi(final Ctx x) {
        x.serial("vast", cases(x), c -> {
            final Rng r = c.r;
            final int n = size(x, c) / 2;
            final int lefts = r.pickInt(1, 7, 1000, 1 << 17);
            final boolean both = (c.index & 1) == 0;
            final int mul = both ? 1 : r.pickInt(1, -1, 1 << 20 | 1); // right key = mul * right + plus
            final int plus = both ? 0 : r.pickInt(0, -5, Integer.MIN_VALUE);
            final boolean counts = r.nextInt(4) != 0;
            c.config(both ? "CompactManyToMany" : "CompactOneToMany", "n=" + n, "lefts=" + lefts,
                    "right=" + mul + "*i+" + plus, "counts=" + counts);
            final CompactManyToMany mm = !both ? null : counts && r.nextBoolean() ? new CompactManyToMany()
                    : new CompactManyToMany(1, 3, 5, counts);
            final CompactOneToMany m = both ? mm : counts && r.nextBoolean() ? new CompactOneToMany()
                    : new CompactOneToMany(1, 3, counts);
            final int[] at = new int[n]; // entry of association i or -1
            final int[] index = new int[n]; // association at an entry
            for (int i = 0; i < n; i++) {
                at[i] = m.put(i % lefts, mul * (i / lefts) + plus);
                if (at[i] != i) {
                    c.fail("put of association " + i + " returns entry " + at[i]);
                }
                index[i] = i;
            }
            c.tick();
            final int rights = (n - 1) / lefts + 1;
            int size = n;
            for (int round = 0; round < 2; round++) {
                final int step = r.range(2, 6);
                c.op("remove every", step, round);
                for (int i = r.nextInt(step); i < n; i += step) {
                    if (at[i] < 0) {
                        continue;
                    }
                    final int e = (i & 1) == 0 ? m.remove(i % lefts, mul * (i / lefts) + plus)
                            : m.removeAt(at[i]);
                    if (e != at[i]) {
                        c.fail("removal of association " + i + " returns entry " + e);
                    }
                    at[i] = -1;
                    size--;
                }
                bi(c, m, mm, lefts, rights, mul, plus, counts, at, index, size);
                final int again = r.range(1, 4);
                c.op("put again every", again, round);
                for (int i = r.nextInt(again); i < n; i += again) {
                    final int e = m.put(i % lefts, mul * (i / lefts) + plus);
                    if (at[i] >= 0 ? e != at[i] : e < 0 || e >= n || at[index[e]] == e) {
                        c.fail("put of association " + i + ", at " + at[i] + ", returns entry " + e);
                    }
                    if (at[i] < 0) {
                        at[i] = e;
                        index[e] = i;
                        size++;
                    }
                }
                bi(c, m, mm, lefts, rights, mul, plus, counts, at, index, size);
            }
            done(c, n);
        });
    }

    private static void bi(final Case c, final CompactOneToMany m, final CompactManyToMany mm, final int lefts,
            final int rights, final int mul, final int plus, final boolean counts, final int[] at,
            final int[] index, final int size) {
        final int n = at.length;
        c.eq(size, m.size(), "size");
        for (int i = 0; i < n; i++) {
            final int right = mul * (i / lefts) + plus;
            if (m.contains(i % lefts, right) == at[i] < 0 || m.lookupEntry(i % lefts, right) != at[i]
                    || at[i] >= 0 && (m.getLeftAt(at[i]) != i % lefts || m.getRightAt(at[i]) != right)) {
                c.fail("association " + i + " (" + i % lefts + ", " + right + ") lives at " + at[i]
                        + ", found at " + m.lookupEntry(i % lefts, right));
            }
        }
        c.tick();
        final int[] seen = new int[n];
        for (int side = 0; side < (mm == null ? 1 : 2); side++) {
            final int keys = side == 0 ? lefts : rights;
            int sum = 0;
            for (int k = 0; k < keys; k++) {
                final var w = side == 0 ? m.withLeft(k) : mm.withRight(k);
                int got = 0;
                long entrySum = 0;
                final var it = w.entryIterator();
                while (it.hasNext()) {
                    final int e = it.next();
                    if (e < 0 || e >= n || at[index[e]] != e || seen[e] != side
                            || (side == 0 ? index[e] % lefts : index[e] / lefts) != k) {
                        c.fail("side " + side + " key " + k + " delivers entry " + e);
                    }
                    seen[e]++;
                    got++;
                    entrySum += side == 0 ? mul * (index[e] / lefts) + plus : index[e] % lefts;
                }
                final var vt = w.valueIterator();
                int values = 0;
                while (vt.hasNext()) {
                    entrySum -= vt.next();
                    values++;
                }
                if (counts && got != w.count() || values != got || entrySum != 0) {
                    c.fail("side " + side + " key " + k + " delivers " + got + " entries and " + values
                            + " values, which differ by " + entrySum);
                }
                sum += got;
                if ((k & 0xfff) == 0) {
                    c.tick();
                }
            }
            c.eq(size, sum, "associations navigated from side " + side);
        }
        c.checks += 5L * n;
    }
}
