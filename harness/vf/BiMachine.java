package vf;

import com.bytefacets.collections.bi.CompactManyToMany;
import com.bytefacets.collections.bi.CompactOneToMany;
import com.bytefacets.collections.bi.Mapping;
import com.bytefacets.collections.functional.IntIterator;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.HashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;

/** One bidirectional collection driven together with its model. */
final class BiMachine {
    static final int CONTENT = 1, NAV = 2, RESERVE = 4, ALL = 7;
    static final byte UNUSED = 0, LIVE = 1, RESERVED = 2, FREE = 3;

    final Case c;
    final int flags;
    final CompactOneToMany o;
    final CompactManyToMany mm; // null for one-to-many
    final boolean counts;
    final int lefts, rights; // how many
    private int leftBy = 1, leftFrom, rightBy = 1, rightFrom; // arithmetic sequences of keys
    final int initialCapacity;

    final Map<Long, Integer> pairs = new HashMap<>();
    final Map<Integer, Set<Integer>> byLeft = new HashMap<>(); // entries
    final Map<Integer, Set<Integer>> byRight = new HashMap<>();
    final List<Integer> liveList = new ArrayList<>();
    byte[] state = new byte[64];
    long[] pairAt = new long[64];
    int[] livePos = new int[64];
    int used, freeCount, reservedCount, peak;

    BiMachine(final Case c, final int flags) {
        this.c = c;
        this.flags = flags;
        final Rng r = c.r;
        counts = r.nextInt(4) > 0;
        lefts = r.pickInt(1, 2, 4, 10, 40, 200);
        rights = r.pickInt(1, 2, 4, 10, 40, 200);
        final int il = r.pickInt(1, 1, 2, 5, 16, 50);
        final int ir = r.pickInt(1, 1, 2, 5, 16, 50);
        initialCapacity = r.pickInt(1, 1, 2, 3, 4, 8, 16, 16, 60);
        final boolean many = r.nextInt(3) > 0;
        if (flags != 0) {
            if (r.chance(12)) { // sparse
                leftBy = r.pickInt(3, 64, 400);
                leftFrom = r.nextInt(r.pickInt(2, 300, 70000));
            }
            if (many && r.chance(12)) {
                rightBy = r.pickInt(3, 64, 400);
                rightFrom = r.nextInt(r.pickInt(2, 300, 70000));
            }
            if (!many && r.nextBoolean()) { // these are values
                rightBy = r.pickInt(1, 7, 65536, 10_000_000);
                rightFrom = Integer.MAX_VALUE - rightBy * (rights + 1) - r.nextInt(3);
            }
        }
        final boolean plain = r.chance(8);
        if (many) {
            mm = plain ? new CompactManyToMany() : new CompactManyToMany(il, ir, initialCapacity, counts);
            o = mm;
        } else {
            mm = null;
            o = plain ? new CompactOneToMany() : new CompactOneToMany(il, initialCapacity, counts);
        }
        c.config(many ? "ManyToMany" : "OneToMany", plain ? "default" : "", "lefts=" + lefts + "/" + il,
                "rights=" + rights + "/" + ir,
                "keys=" + leftFrom + "+" + leftBy + "i/" + rightFrom + "+" + rightBy + "i", "cap=" + initialCapacity, "counts=" + (counts || plain));
        this.plainCounts = plain || counts;
    }

    private final boolean plainCounts;
    boolean sizable; // no navigation after every call

    BiMachine(final Case c, final boolean many, final int il, final int ir, final int cap,
            final boolean counts) {
        this(c, many, il, ir, cap, counts, 5, 5, CONTENT);
    }

    BiMachine(final Case c, final boolean many, final int il, final int ir, final int cap,
            final boolean counts, final int lefts, final int rights, final int flags) {
        this.c = c;
        this.flags = flags;
        this.counts = counts;
        plainCounts = counts;
        this.lefts = lefts;
        this.rights = rights;
        initialCapacity = cap;
        mm = many ? new CompactManyToMany(il, ir, cap, counts) : null;
        o = many ? mm : new CompactOneToMany(il, cap, counts);
    }

    private BiMachine(final Case d, final BiMachine m) {
        c = d;
        flags = CONTENT;
        o = m.o;
        mm = m.mm;
        counts = m.counts;
        plainCounts = m.plainCounts;
        lefts = m.lefts;
        rights = m.rights;
        leftBy = m.leftBy;
        leftFrom = m.leftFrom;
        rightBy = m.rightBy;
        rightFrom = m.rightFrom;
        initialCapacity = m.initialCapacity;
        pairs.putAll(m.pairs);
        liveList.addAll(m.liveList);
        state = m.state.clone();
        pairAt = m.pairAt.clone();
        livePos = m.livePos.clone();
        used = m.used;
        freeCount = m.freeCount;
        reservedCount = m.reservedCount;
        peak = m.peak;
    }

    /** Another monitor of the same instance, for reading only; mappings are one per collection. */
    BiMachine view(final Case d) {
        return new BiMachine(d, this);
    }

    void step() throws Throwable {
        if (c.r.nextInt(100) < (liveList.size() > 40 ? 35 : 55)) {
            putRandom();
        } else if (c.r.nextBoolean()) {
            removeAt();
        } else {
            final int e = randomLive();
            if (e >= 0) {
                remove(left(pairAt[e]), right(pairAt[e]));
            }
        }
    }

    int leftKey(final int i) {
        return leftFrom + leftBy * i;
    }

    int rightKey(final int i) {
        return rightFrom + rightBy * i;
    }

    boolean on(final int f) {
        return (flags & f) != 0;
    }

    static long pair(final int l, final int r) {
        return (long) l << 32 | r;
    }

    static int left(final long p) {
        return (int) (p >> 32);
    }

    static int right(final long p) {
        return (int) p;
    }

    private void ensure(final int e) {
        if (e >= state.length) {
            final int n = Math.max(e + 1, state.length * 2);
            state = java.util.Arrays.copyOf(state, n);
            pairAt = java.util.Arrays.copyOf(pairAt, n);
            livePos = java.util.Arrays.copyOf(livePos, n);
        }
    }

    int randomLive() {
        return liveList.isEmpty() ? -1 : liveList.get(c.r.nextInt(liveList.size()));
    }

    int randomInState(final byte st) {
        if (used == 0) {
            return -1;
        }
        final int from = c.r.nextInt(used);
        for (int i = 0; i < used; i++) {
            final int e = (from + i) % used;
            if (state[e] == st) {
                return e;
            }
        }
        return -1;
    }

    private void modelRemove(final int e, final byte to) {
        final long p = pairAt[e];
        pairs.remove(p);
        byLeft.get(left(p)).remove(e);
        byRight.get(right(p)).remove(e);
        state[e] = to;
        if (to == FREE) {
            freeCount++;
        } else {
            reservedCount++;
        }
        final int last = liveList.remove(liveList.size() - 1);
        if (last != e) {
            liveList.set(livePos[e], last);
            livePos[last] = livePos[e];
        }
    }

    void put(final int l, final int r) throws Throwable {
        c.op("put", l, r);
        final long p = pair(l, r);
        final Integer was = pairs.get(p);
        final int e = o.put(l, r);
        if (was != null) {
            c.eq(was, e, "entry of a present association on put");
        } else {
            c.check(e >= 0 && e < used + 1_000_000, "put returned entry " + e);
            if (e < used && state[e] != FREE) {
                c.fail("put gave entry " + e + " which is "
                        + (state[e] == LIVE ? "in use" : state[e] == RESERVED ? "reserved" : "unused"));
            }
            if (freeCount > 0) {
                c.check(e < used, "entry " + e + " is new although " + freeCount + " were released");
            }
            ensure(e);
            if (e < used) {
                freeCount--;
                c.count("entry reused");
            } else {
                for (int i = used; i < e; i++) {
                    state[i] = FREE;
                    freeCount++;
                }
                used = e + 1;
            }
            state[e] = LIVE;
            pairAt[e] = p;
            pairs.put(p, e);
            byLeft.computeIfAbsent(l, k -> new HashSet<>()).add(e);
            byRight.computeIfAbsent(r, k -> new HashSet<>()).add(e);
            livePos[e] = liveList.size();
            liveList.add(e);
            peak = Math.max(peak, liveList.size());
        }
        touch(l, r);
    }

    void putRandom() throws Throwable {
        put(leftKey(c.r.nextInt(lefts)), rightKey(c.r.nextInt(rights)));
    }

    void remove(final int l, final int r) throws Throwable {
        c.op("remove", l, r);
        final Integer was = pairs.get(pair(l, r));
        final int e = o.remove(l, r);
        c.eq(was == null ? -1 : was, e, "result of remove");
        if (was != null) {
            modelRemove(was, FREE);
        }
        touch(l, r);
    }

    void removeAt() throws Throwable {
        final int e = randomLive();
        if (e < 0) {
            return;
        }
        final long p = pairAt[e];
        c.op("removeAt", e);
        c.eq(e, o.removeAt(e), "result of removeAt");
        modelRemove(e, FREE);
        touch(left(p), right(p));
    }

    void reserve() throws Throwable {
        final int e = randomLive();
        if (e < 0) {
            return;
        }
        final long p = pairAt[e];
        c.op("removeAtAndReserve", e);
        o.removeAtAndReserve(e);
        modelRemove(e, RESERVED);
        c.count("association reserved");
        touch(left(p), right(p));
        checkReserved(e);
    }

    private void checkReserved(final int e) {
        c.eq(left(pairAt[e]), o.getLeftAt(e), "getLeftAt reserved entry " + e);
        c.eq(right(pairAt[e]), o.getRightAt(e), "getRightAt reserved entry " + e);
    }

    void free() throws Throwable {
        final int e = randomInState(RESERVED);
        if (e < 0) {
            return;
        }
        checkReserved(e);
        c.op("freeReservedEntry", e);
        o.freeReservedEntry(e);
        state[e] = FREE;
        freeCount++;
        reservedCount--;
        c.count("association freed");
        touch(left(pairAt[e]), right(pairAt[e]));
    }

    void inactive() throws Throwable {
        int e = c.r.nextInt(Math.max(1, Math.min(used + 2, initialCapacity)));
        if (used > 0 && c.r.nextBoolean()) {
            e = c.r.nextInt(used);
        }
        if (e < used && state[e] == LIVE) {
            return;
        }
        c.count("removal of an inactive association");
        if (c.r.nextBoolean()) {
            c.op("removeAt (inactive)", e);
            c.eq(-1, o.removeAt(e), "removeAt of inactive entry " + e);
        } else {
            c.op("removeAtAndReserve (inactive)", e);
            o.removeAtAndReserve(e);
        }
        verify();
    }

    void touch(final int l, final int r) throws Throwable {
        if (on(CONTENT)) {
            c.eq(pairs.size(), o.size(), "size");
            checkPair(l, r);
            final int e = randomLive();
            if (e >= 0) {
                checkPair(left(pairAt[e]), right(pairAt[e]));
            }
        }
        if (on(NAV) && !sizable && !traversing) {
            checkLeft(l);
            if (mm != null) {
                checkRight(r);
            }
        }
    }

    private static final int[] ODD = {-1, Integer.MIN_VALUE, Integer.MAX_VALUE, 100000};

    private void absent(final int l, final int r) {
        if (l >= 0 && r >= 0 && pairs.containsKey(pair(l, r))) {
            return;
        }
        c.check(!o.contains(l, r), "contains(" + l + "," + r + ")");
        c.eq(-1, o.lookupEntry(l, r), "lookupEntry(" + l + "," + r + ")");
    }

    private void checkPair(final int l, final int r) {
        final Integer e = pairs.get(pair(l, r));
        c.check(o.contains(l, r) == (e != null), "contains(" + l + "," + r + ") is " + (e == null));
        c.eq(e == null ? -1 : e, o.lookupEntry(l, r), "lookupEntry(" + l + "," + r + ")");
        if (e != null) {
            c.eq(l, o.getLeftAt(e), "getLeftAt(" + e + ")");
            c.eq(r, o.getRightAt(e), "getRightAt(" + e + ")");
        }
    }

    void checkLeft(final int l) {
        nav(o.withLeft(l), byLeft.get(l), "left " + l, true);
    }

    void checkRight(final int r) {
        nav(mm.withRight(r), byRight.get(r), "right " + r, false);
    }

    private void nav(final Mapping m, final Set<Integer> entries, final String what, final boolean isLeft) {
        final int n = entries == null ? 0 : entries.size();
        if (plainCounts) {
            c.eq(n, m.count(), "count of " + what);
        }
        final Set<Integer> seen = new HashSet<>();
        final Set<Integer> values = new HashSet<>();
        final int nestAt = mm != null && !sizable && !nested && n > 0 && c.r.chance(12) ? c.r.nextInt(n) : -1;
        final java.util.function.IntConsumer onEntry = e -> {
            if (seen.size() == nestAt) {
                nested = true; // from there to the other side
                if (isLeft) {
                    checkRight(right(pairAt[e]));
                } else {
                    checkLeft(left(pairAt[e]));
                }
                nested = false;
                c.count("traversals within traversals");
            }
            c.check(entries != null && entries.contains(e), what + " lists entry " + e + " which is not its own");
            c.check(seen.add(e), what + " lists entry " + e + " twice");
        };
        final java.util.function.IntConsumer onValue = v -> {
            c.check(pairs.containsKey(valueKey(m, what, isLeft, v)), what + " lists value " + v
                    + " which is not associated");
            c.check(values.add(v), what + " lists value " + v + " twice");
        };
        if (n > 1 && c.r.chance(8)) { // given up halfway
            c.count("iterator given up");
            final IntIterator it = c.r.nextBoolean() ? m.entryIterator() : m.valueIterator();
            for (int i = c.r.nextInt(n); i > 0; i--) {
                it.next();
            }
        }
        if (c.r.nextBoolean()) {
            walk(m.entryIterator(), n, onEntry, "entry iterator of " + what);
            walk(m.valueIterator(), n, onValue, "value iterator of " + what);
        } else {
            m.forEachEntry(onEntry::accept);
            m.forEachValue(onValue::accept);
        }
        c.eq(n, seen.size(), "entries listed for " + what);
        c.eq(n, values.size(), "values listed for " + what);
    }

    /** Goes through an iterator in one of the ways iterators can be used. */
    private void walk(final IntIterator it, final int n, final java.util.function.IntConsumer on,
            final String what) {
        final int alone = c.r.chance(3) ? c.r.nextInt(n + 1) : 0;
        for (int i = 0; i < alone; i++) { // without asking, or asking twice
            if (i % 2 == 0) {
                c.check(it.hasNext() && it.hasNext(), what + " ends after " + i + " of " + n);
            }
            on.accept(it.next());
        }
        if (alone > 0 && c.r.nextBoolean()) {
            it.forEach(on::accept);
        }
        while (it.hasNext()) {
            on.accept(it.next());
        }
        if (c.r.chance(10)) {
            c.count("exhausted iterators asked again");
            boolean thrown = false;
            try {
                it.next();
            } catch (RuntimeException e) {
                thrown = true;
            }
            c.check(thrown && !it.hasNext(), "next of the exhausted " + what + " succeeds");
        }
    }

    /** A traversal that removes what it has just been given. */
    void traverseRemoving() throws Throwable {
        final int some = randomLive();
        if (some < 0) {
            return;
        }
        final boolean isLeft = mm == null || c.r.nextBoolean();
        final int key = isLeft ? left(pairAt[some]) : right(pairAt[some]);
        final Mapping m = isLeft ? o.withLeft(key) : mm.withRight(key);
        final Set<Integer> rest = new HashSet<>((isLeft ? byLeft : byRight).get(key));
        final boolean entries = c.r.nextBoolean();
        final int percent = c.r.pickInt(100, 100, 50, 20);
        final int others = c.r.pickInt(0, 0, 10, 60); // calls changing other keys of the same side
        c.op("traversal with removals of " + (isLeft ? "left" : "right") + (others > 0 ? " changing others" : ""), key, percent);
        c.count("traversals with removals");
        traversing = true;
        final java.util.function.IntConsumer visitor = got -> {
            final Integer e = entries ? (Integer) got
                    : pairs.get(isLeft ? pair(key, got) : pair(got, key));
            c.check(e != null && rest.remove(e), "the traversal delivers " + got + " twice or wrongly");
            if (c.r.nextInt(100) < percent) {
                removeVisited(e);
            }
            if (c.r.nextInt(100) < others) {
                Lib.quietly(() -> changeOther(isLeft, key));
            }
        };
        if (c.r.nextBoolean()) {
            for (IntIterator it = entries ? m.entryIterator() : m.valueIterator(); it.hasNext(); ) {
                visitor.accept(it.next());
            }
        } else if (entries) {
            m.forEachEntry(visitor::accept);
        } else {
            m.forEachValue(visitor::accept);
        }
        traversing = false;
        c.check(rest.isEmpty(), "the traversal leaves out entries " + rest);
        if (c.r.nextInt(4) == 0) {
            verify();
        }
    }

    /** Visits all associations, removing some of those it is given. */
    void visitRemoving() throws Throwable {
        final int p = c.r.pickInt(1, 2, 5);
        c.op("forEachEntry, removing 1/" + p);
        c.count("associations removed while visited");
        final Set<Integer> rest = new HashSet<>(liveList);
        o.forEachEntry(e -> {
            c.check(rest.remove(e), "forEachEntry delivers " + e + " twice or wrongly");
            if (c.r.chance(p)) {
                removeVisited(e);
            }
        });
        c.check(rest.isEmpty(), "forEachEntry leaves out entries " + rest);
    }

    private void removeVisited(final int e) {
        final long p = pairAt[e];
        switch (c.r.nextInt(3)) {
            case 0:
                c.eq(e, o.remove(left(p), right(p)), "result of remove");
                modelRemove(e, FREE);
                break;
            case 1:
                c.eq(e, o.removeAt(e), "result of removeAt");
                modelRemove(e, FREE);
                break;
            default:
                o.removeAtAndReserve(e);
                modelRemove(e, RESERVED);
        }
    }

    private boolean traversing;
    private boolean nested;

    /** Changes associations of any other key of the side that is being traversed. */
    private void changeOther(final boolean isLeft, final int key) throws Throwable {
        for (int n = c.r.chance(8) ? 40 : 1 + c.r.nextInt(2); n > 0; n--) {
            final int l = leftKey(c.r.nextInt(lefts));
            final int r = rightKey(c.r.nextInt(rights));
            if ((isLeft ? l : r) == key) {
                continue;
            }
            c.count("other keys changed while traversing");
            final int e = randomLive();
            final long p = e < 0 ? -1 : pairAt[e];
            if (c.r.nextInt(3) > 0 || e < 0 || (isLeft ? left(p) : right(p)) == key) {
                put(l, r);
            } else {
                remove(left(p), right(p));
            }
        }
    }

    private static Long valueKey(final Mapping m, final String what, final boolean isLeft, final int v) {
        final int k = Integer.parseInt(what.substring(what.indexOf(' ') + 1));
        return isLeft ? pair(k, v) : pair(v, k);
    }

    void verify() throws Throwable {
        c.count("full comparisons");
        c.eq(pairs.size(), o.size(), "size");
        for (long p : pairs.keySet()) {
            checkPair(left(p), right(p));
        }
        for (int i = 0; i < 20; i++) {
            checkPair(leftKey(c.r.nextInt(lefts + 2)), rightKey(c.r.nextInt(rights + 2)));
        }
        for (int k : ODD) { // absent, unless one happens to be among the keys
            final int e = randomLive();
            final int l = e >= 0 && c.r.nextBoolean() ? left(pairAt[e]) : leftKey(c.r.nextInt(lefts));
            final int r = e >= 0 && c.r.nextBoolean() ? right(pairAt[e]) : rightKey(c.r.nextInt(rights));
            if (k < 0) {
                absent(k, r);
                absent(l, k);
                absent(k, k);
            }
            absent(r, l);
            absent(l, r | Integer.MIN_VALUE);
            absent(l | Integer.MIN_VALUE, r);
            absent(l, ~r);
        }
        final boolean[] seen = new boolean[used];
        final int[] n = {0};
        o.forEachEntry(e -> {
            n[0]++;
            c.check(e >= 0 && e < used && state[e] == LIVE, "forEachEntry delivers entry " + e
                    + " which is not in use");
            c.check(!seen[e], "forEachEntry delivers entry " + e + " twice");
            seen[e] = true;
        });
        c.eq(pairs.size(), n[0], "entries delivered by forEachEntry");
        for (int e = 0; e < used; e++) {
            if (state[e] == RESERVED) {
                checkReserved(e);
            }
        }
        if (on(NAV)) {
            for (int l = 0; l < lefts + 2; l++) {
                checkLeft(leftKey(l));
            }
            for (int k : ODD) {
                checkLeft(k);
                if (mm != null) {
                    checkRight(k);
                }
            }
            if (mm != null) {
                for (int r = 0; r < rights + 2; r++) {
                    checkRight(rightKey(r));
                }
            }
        }
    }

    void drive(final int total, final boolean reserveHeavy) throws Throwable {
        final Rng r = c.r;
        int done = 0;
        while (done < total) {
            final int n = Math.min(total - done, 1 + r.nextInt(r.pickInt(10, 50, 200)));
            final int addP = r.pickInt(30, 50, 50, 85);
            for (int i = 0; i < n; i++) {
                if (r.nextInt(100) < addP) {
                    putRandom();
                } else {
                    switch (r.nextInt(reserveHeavy ? 12 : 20)) {
                        case 0:
                        case 1:
                            if (reservedCount < 100) {
                                reserve();
                            }
                            break;
                        case 2:
                        case 3:
                            free();
                            break;
                        case 4:
                            inactive();
                            break;
                        case 5:
                        case 6:
                        case 7:
                            removeAt();
                            break;
                        case 8:
                            remove(leftKey(r.nextInt(lefts + 1)), rightKey(r.nextInt(rights + 1)));
                            break;
                        default: {
                            final int e = randomLive();
                            if (e >= 0) {
                                remove(left(pairAt[e]), right(pairAt[e]));
                            }
                        }
                    }
                }
                if (on(NAV) && r.nextInt(100) == 0) {
                    traverseRemoving();
                }
                if (on(NAV) && r.nextInt(300) == 0) {
                    visitRemoving();
                }
                if (r.nextInt(pairs.size() + lefts + rights + 20) == 0) {
                    verify();
                }
            }
            done += n;
            if (r.chance(12)) { // everything out
                while (!liveList.isEmpty()) {
                    if (r.nextBoolean()) {
                        removeAt();
                    } else {
                        final int e = liveList.get(0);
                        remove(left(pairAt[e]), right(pairAt[e]));
                    }
                }
                c.count("emptied");
            }
        }
        verify();
    }
}
