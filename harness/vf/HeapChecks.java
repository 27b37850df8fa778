package vf;

/** C08, C09, C10, C33 and the heap parts of C31 and C32. */
final class HeapChecks {
    private HeapChecks() {}

    static final int INS = 0, REM = 1, POLL = 2, RESET = 3, SETV = 4, CMP = 5, DEF = 6, CLEAR = 7,
            INACT = 8, VERIFY = 9, DRAIN = 10;

    static int[] w(final int... x) {
        return x;
    }

    //                       INS  REM POLL RESET SETV CMP DEF CLEAR INACT VERIFY DRAIN
    static final int[] BASE = {450, 150, 120, 80, 40, 8, 6, 3, 10, 8, 2};
    static final int[] GROW = {800, 40, 20, 80, 20, 3, 1, 0, 3, 3, 0};
    static final int[] CHURN = {440, 260, 140, 60, 10, 3, 1, 0, 6, 3, 0};
    static final int[] DRAINING = {150, 450, 250, 60, 10, 3, 1, 0, 6, 3, 1};
    static final int[] POLLING = {420, 30, 430, 40, 5, 5, 3, 1, 0, 4, 6};
    static final int[] RESORT = {360, 60, 60, 260, 20, 120, 2, 1, 3, 6, 6};
    static final int[] DEFAULTS = {330, 180, 150, 30, 20, 4, 60, 20, 10, 20, 12};

    static int pickOp(final Rng r, final int[] w) {
        return HashChecks.pick(r, w);
    }

    static void step(final HeapMachine m, final int op) throws Throwable {
        switch (op) {
            case INS:
                m.insertRandom();
                break;
            case REM:
                m.removeRandom();
                break;
            case POLL:
                m.poll();
                break;
            case RESET:
                m.resetKey();
                break;
            case SETV:
                m.setValueAt();
                break;
            case CMP:
                m.setComparator();
                break;
            case DEF:
                m.setDefaults();
                break;
            case CLEAR:
                m.clear();
                break;
            case INACT:
                if (m.on(HeapMachine.ENTRY)) {
                    m.removeInactive();
                }
                break;
            case VERIFY:
                m.verify();
                break;
            default:
                m.drain();
        }
    }

    static void drive(final HeapMachine m, final int total, final int[] main) throws Throwable {
        final Rng r = m.c.r;
        int done = 0;
        while (done < total) {
            final int n = Math.min(total - done, 1 + r.nextInt(r.pickInt(10, 60, 300)));
            final int[] w = r.pick(main, main, main, GROW, CHURN, DRAINING);
            for (int i = 0; i < n; i++) {
                step(m, HashChecks.pick(r, w));
            }
            done += n;
            if (m.on(HeapMachine.ENTRY) && r.chance(4)) {
                m.visitChanging();
            }
            if (r.chance(3)) {
                m.verify();
            }
        }
        m.verify();
        if (r.nextBoolean()) {
            m.drain();
        }
    }

    static HeapLib lib(final int i) {
        return HeapLib.of(T.KEYS[i % 9], T.ALL[(i / 9) % 10]);
    }

    private static int check(final Ctx x, final int flags, final int[] mix, final int quick,
            final int deep, final String... seen) throws Throwable {
        x.rule = "A case is one history of calls on one heap (90 classes cycled, initial capacity, key"
                + " distribution and comparator drawn at random), compared with a reference multiset"
                + " and entry table after every call; non-trivial if it made at least 10 calls and held"
                + " at least 3 elements at once; distinct by a hash of configuration and calls.";
        x.assume("single-threaded use; comparators are total preorders and do not throw; generic keys"
                + " of one heap are mutually comparable");
        x.parallel("mixed", x.n(quick, deep), c -> {
            final HeapMachine m = HeapMachine.random(c, lib(c.index), flags);
            if (c.r.nextBoolean()) {
                m.setComparator();
            }
            drive(m, c.r.pickInt(30, 100, 300, 1000, 2000), mix);
            c.nontrivial = c.events >= 10 && m.peak >= 3;
            c.count("key " + m.lib.k.lib);
        });
        x.parallel("tiny", x.n(quick * 2, deep * 2), c -> {
            final HeapMachine m = HeapMachine.random(c, lib(c.index), flags);
            final int n = 5 + c.r.nextInt(35);
            for (int i = 0; i < n; i++) {
                step(m, HashChecks.pick(c.r, mix));
                if (c.r.chance(3)) {
                    m.verify();
                }
            }
            m.verify();
            m.drain();
            c.nontrivial = c.events >= 10 && m.peak >= 3;
        });
        x.parallel("large", x.n(8, 60), c -> {
            final HeapMachine m = HeapMachine.random(c, lib(c.r.nextInt(90)), flags);
            m.keySpace = c.r.pickInt(50, 5000, 1000000);
            for (int[] w : new int[][] {GROW, CHURN, DRAINING, GROW, POLLING}) {
                final int[] q = w.clone();
                q[CMP] = q[DEF] = q[INACT] = q[VERIFY] = q[DRAIN] = q[CLEAR] = 0;
                final int n = c.index % 4 == 0 && w == GROW ? 80_000 : 8000;
                for (int i = 0; i < n; i++) {
                    step(m, HashChecks.pick(c.r, q));
                }
                m.setComparator();
                m.verify();
            }
            m.drain();
            c.nontrivial = true;
        });
        x.parallel("soak", x.n(16, 90), c -> { // one small heap for a very long time
            final HeapMachine m = HeapMachine.random(c, lib(c.r.nextInt(90)), flags);
            final int n = c.r.pickInt(70_000, 140_000);
            final int most = c.r.pickInt(3, 20, 60);
            for (int i = 0; i < n; i++) {
                final int op = HashChecks.pick(c.r, mix);
                step(m, op == INS && m.size >= most ? REM : op);
            }
            m.verify();
            m.drain();
            c.nontrivial = true;
            c.count("soaked collections");
        });
        if ((flags & HeapMachine.DEFAULTS) == 0) {
            Vast.heap(x);
        }
        return x.finish(seen);
    }

    static void register() {
        Main.CHECKS.put("C08", x -> check(x, HeapMachine.ORDER, POLLING, 4000, 90000, "drained",
                "entry reused", "clear", "keys reset"));
        Main.CHECKS.put("C09", x -> check(x, HeapMachine.ENTRY, BASE, 4000, 90000, "entry reused",
                "entries changed while visited",
                "clear", "out-of-range removal", "never-used removal", "released removal"));
        Main.CHECKS.put("C10", x -> check(x, HeapMachine.ORDER | HeapMachine.CONTENT, RESORT, 4000,
                90000, "drained", "keys reset", "comparator changed while holding keys"));
        Main.CHECKS.put("C33", x -> check(x, HeapMachine.DEFAULTS, DEFAULTS, 4000, 90000, "default set",
                "default refused", "clear", "entry reused"));
    }

    static void clearedHeap(final Ctx x) {
        x.parallel("heap", x.n(1500, 30000), c -> {
            final HeapLib lib = lib(c.index);
            final Rng r = c.r;
            final HeapMachine a = HeapMachine.random(c, lib, HeapMachine.ALL);
            if (r.nextBoolean()) {
                a.setDefaults();
                a.setDefaults();
            }
            if (r.nextBoolean()) {
                a.setComparator();
            }
            drive(a, r.nextInt(200), BASE);
            final int more = c.index % 200 == 199 ? r.pickInt(5000, 70_000) : r.nextInt(20);
            for (int i = more; i > 0; i--) {
                a.insertRandom();
            }
            for (int i = r.nextInt(2) * r.nextInt(more + 1); i > 0; i--) {
                a.removeRandom();
            }
            a.clear();
            a.verify();
            final HeapMachine b = new HeapMachine(c, lib, HeapMachine.ALL);
            b.keySpace = a.keySpace;
            b.keyGen = a.keyGen;
            b.o = lib.create(a.cap);
            lib.setDefKey(b.o, a.defKey);
            lib.setDefVal(b.o, a.defVal);
            b.defKey = a.defKey;
            b.defVal = a.defVal;
            lib.setCmp(b.o, a.order.lib);
            b.order(a.order);
            c.check(lib.getCmp(a.o) == a.order.lib, "clear changed the comparator");
            final int n = c.index % 200 == 199 ? 3000 : r.nextInt(200);
            for (int i = 0; i < n; i++) {
                switch (r.nextInt(8)) {
                    case 0:
                    case 1:
                    case 2:
                    case 3: {
                        final Object k = a.randomKey();
                        final Object v = lib.v.gen(r);
                        final boolean with = r.nextBoolean();
                        final int ea = a.insert(k, with, v);
                        final int eb = b.insert(k, with, v);
                        c.eq(eb, ea, "entry given by the cleared and (expected) the new heap");
                        break;
                    }
                    case 4: {
                        final int e = a.randomLive();
                        if (e >= 0) {
                            a.removeAt(e);
                            b.removeAt(e);
                        }
                        break;
                    }
                    case 5:
                        if (a.size > 0) {
                            final int e = lib.peek(a.o);
                            c.eq(lib.peek(b.o), e, "peek of the cleared and (expected) the new heap");
                            a.removeAt(e);
                            b.removeAt(e);
                        }
                        break;
                    default:
                        if (r.chance(5)) {
                            a.verify();
                            b.verify();
                        }
                }
            }
            a.drain();
            b.drain();
            c.nontrivial = a.peak > 1;
            c.count("heap twins");
        });
    }

    static void failingHeap(final Ctx x) {
        x.parallel("heap", x.n(1500, 30000), c -> {
            final HeapLib lib = lib(c.index);
            final Rng r = c.r;
            final HeapMachine m = HeapMachine.random(c, lib, HeapMachine.ALL);
            final int n = 20 + r.nextInt(100);
            for (int i = 0; i < n; i++) {
                step(m, HashChecks.pick(r, r.pick(BASE, GROW, CHURN)));
                switch (r.nextInt(12)) {
                    case 0:
                        m.removeInactive();
                        c.count("refused heap calls");
                        break;
                    case 1: {
                        if (m.size == 0) {
                            break;
                        }
                        final int at = r.nextInt(m.size);
                        final int[] seen = {0};
                        c.op("consumer throws at visit " + at + " of forEachEntry");
                        boolean boom = false;
                        try {
                            lib.forEachEntry(m.o, e -> {
                                if (seen[0]++ == at) {
                                    throw new HashChecks.Boom();
                                }
                            });
                        } catch (HashChecks.Boom b) {
                            boom = true;
                        }
                        c.check(boom, "exception of the consumer was swallowed");
                        m.verify();
                        c.count("consumer failures");
                        break;
                    }
                    case 2: {
                        final int e = r.pickInt(-1, lib.capacity(m.o), Integer.MAX_VALUE, Integer.MIN_VALUE);
                        final int what = r.nextInt(3);
                        c.op("out-of-range entry in call " + what, e);
                        boolean thrown = false;
                        try {
                            if (what == 0) {
                                lib.keyAt(m.o, e);
                            } else if (what == 1) {
                                lib.valueAt(m.o, e);
                            } else {
                                lib.setValueAt(m.o, e, lib.v.gen(r));
                            }
                        } catch (RuntimeException t) {
                            thrown = true;
                        }
                        c.check(thrown, "out-of-range entry " + e + " accepted");
                        m.verify();
                        c.count("refused heap calls");
                        break;
                    }
                    case 3:
                        if (m.size > 0) {
                            m.setDefaults();
                        } else {
                            boolean thrown = false;
                            c.op("peek of an empty heap");
                            try {
                                lib.peek(m.o);
                            } catch (RuntimeException t) {
                                thrown = true;
                            }
                            c.check(thrown, "peek of an empty heap succeeds");
                            m.verify();
                        }
                        break;
                    case 4: {
                        boolean thrown = false;
                        c.op("setComparator", null);
                        try {
                            lib.setCmp(m.o, null);
                        } catch (RuntimeException t) {
                            thrown = true;
                        }
                        c.check(thrown, "null comparator accepted");
                        m.verify();
                        break;
                    }
                    default:
                }
            }
            m.verify();
            m.drain();
            c.nontrivial = m.peak >= 2;
        });
    }
}
