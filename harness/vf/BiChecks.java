package vf;

/** C17, C18 and the bidirectional parts of C05 and C32. */
final class BiChecks {
    private BiChecks() {}

    private static int check(final Ctx x, final int flags, final String... seen) throws Throwable {
        x.rule = "A case is one history of calls on one CompactOneToMany or CompactManyToMany (initial"
                + " capacities, key ranges, counts drawn at random) compared with a reference set of"
                + " pairs; non-trivial if it made at least 10 calls and held at least 3 associations.";
        x.assume("single-threaded use; keys are at least 0; mappings are not used across changes of their own key");
        x.parallel("bi", x.n(4000, 80000), c -> {
            final BiMachine m = new BiMachine(c, flags);
            m.drive(c.r.pickInt(30, 100, 300, 800), c.r.chance(3));
            c.nontrivial = c.events >= 10 && m.peak >= 3;
            if (m.peak > m.initialCapacity) {
                c.count("grown histories");
            }
        });
        x.parallel("tiny", x.n(8000, 160000), c -> {
            final BiMachine m = new BiMachine(c, flags);
            m.drive(5 + c.r.nextInt(25), c.r.nextBoolean());
            c.nontrivial = c.events >= 10 && m.peak >= 3;
        });
        x.parallel("large", x.n(8, 80), c -> {
            final boolean many = c.index % 2 == 0;
            final BiMachine m = new BiMachine(c, many, c.r.pickInt(1, 16, 1000), 1, c.r.pickInt(1, 64), true,
                    c.r.pickInt(1, 50, 3000, 70_000), c.r.pickInt(20, 3000, 70_000), flags);
            c.config(many ? "ManyToMany" : "OneToMany", m.lefts, m.rights);
            m.sizable = true;
            final int n = c.r.pickInt(70_000, 150_000);
            for (int i = 0; i < n; i++) {
                m.putRandom();
            }
            m.verify();
            for (int i = 0; i < n; i++) {
                m.step();
            }
            m.verify();
            for (int i = 0; i < 20 && (flags & BiMachine.NAV) != 0; i++) {
                m.traverseRemoving();
            }
            while (m.liveList.size() > 50) {
                m.removeAt();
            }
            m.verify();
            c.nontrivial = true;
            c.count("large histories");
        });
        x.parallel("soak", x.n(16, 90), c -> { // one small collection for a very long time
            final BiMachine m = new BiMachine(c, flags);
            m.drive(c.r.pickInt(70_000, 140_000), c.r.nextBoolean());
            c.nontrivial = true;
            c.count("soaked collections");
        });
        Vast.bi(x);
        return x.finish(seen);
    }

    static void register() {
        Main.CHECKS.put("C17", x -> check(x, BiMachine.CONTENT, "grown histories", "entry reused",
                "emptied", "association freed", "removal of an inactive association"));
        Main.CHECKS.put("C18", x -> check(x, BiMachine.NAV | BiMachine.CONTENT, "grown histories",
                "entry reused", "emptied", "association freed", "traversals with removals",
                "other keys changed while traversing", "associations removed while visited",
                "exhausted iterators asked again", "iterator given up",
                "traversals within traversals"));
    }

    /** The reserve protocol (C05). */
    static void reserve(final Ctx x) {
        x.parallel("bi", x.n(2500, 50000), c -> {
            final BiMachine m = new BiMachine(c, BiMachine.CONTENT | BiMachine.NAV | BiMachine.RESERVE);
            m.drive(c.r.pickInt(20, 60, 200), true);
            c.nontrivial = c.events >= 10 && m.peak >= 3;
        });
    }

    /** Refused calls (C32). */
    static void failing(final Ctx x) {
        x.parallel("bi", x.n(1500, 30000), c -> {
            final Rng r = c.r;
            final BiMachine m = new BiMachine(c, BiMachine.ALL);
            for (int i = 0; i < 15; i++) {
                m.drive(r.nextInt(20), r.nextBoolean());
                final int kind = r.nextInt(5);
                boolean thrown = false;
                try {
                    switch (kind) {
                        case 0: {
                            final int bad = r.pickInt(-1, -2, Integer.MIN_VALUE, Integer.MAX_VALUE);
                            final boolean left = m.mm == null || r.nextBoolean();
                            final int ok = left ? m.rightKey(r.nextInt(m.rights)) : m.leftKey(r.nextInt(m.lefts));
                            c.op("put with an invalid key", left ? bad : ok, left ? ok : bad);
                            c.count("invalid keys");
                            m.o.put(left ? bad : ok, left ? ok : bad);
                            break;
                        }
                        case 1: {
                            final int e = r.pickInt(-1, Integer.MIN_VALUE, Integer.MAX_VALUE, 10_000_000);
                            final int what = r.nextInt(4);
                            c.op("out-of-range entry in call " + what, e);
                            c.count("out-of-range entries");
                            switch (what) {
                                case 0:
                                    m.o.removeAt(e);
                                    break;
                                case 1:
                                    m.o.removeAtAndReserve(e);
                                    break;
                                case 2:
                                    m.o.getLeftAt(e);
                                    break;
                                default:
                                    m.o.getRightAt(e);
                            }
                            break;
                        }
                        case 2: {
                            if (m.pairs.isEmpty()) {
                                continue;
                            }
                            final int at = r.nextInt(m.pairs.size());
                            c.op("consumer throws at visit " + at + " of forEachEntry");
                            c.count("consumer failures");
                            final int[] seen = {0};
                            m.o.forEachEntry(e -> {
                                if (seen[0]++ == at) {
                                    throw new HashChecks.Boom();
                                }
                            });
                            break;
                        }
                        case 3: {
                            final int e = m.randomLive();
                            if (e < 0) {
                                continue;
                            }
                            c.op("consumer throws in a mapping");
                            c.count("consumer failures");
                            final com.bytefacets.collections.bi.Mapping mp =
                                    m.mm != null && r.nextBoolean()
                                            ? m.mm.withRight(BiMachine.right(m.pairAt[e]))
                                            : m.o.withLeft(BiMachine.left(m.pairAt[e]));
                            if (r.nextBoolean()) {
                                mp.forEachEntry(v -> {
                                    throw new HashChecks.Boom();
                                });
                            } else {
                                mp.forEachValue(v -> {
                                    throw new HashChecks.Boom();
                                });
                            }
                            break;
                        }
                        default: {
                            final int l = r.pickInt(-1, -7, Integer.MIN_VALUE);
                            c.op("remove with an unknown key", l);
                            c.eq(-1, m.o.remove(l, m.rightKey(r.nextInt(m.rights))), "remove of an unknown pair");
                            c.check(!m.o.contains(l, 0), "contains an unknown pair");
                            thrown = true;
                        }
                    }
                } catch (Violation v) {
                    throw v;
                } catch (RuntimeException e) {
                    thrown = true;
                }
                c.check(thrown, "invalid call " + kind + " was accepted");
                m.verify();
            }
            c.nontrivial = m.peak > 1;
        });
    }
}
