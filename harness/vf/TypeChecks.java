package vf;

import com.bytefacets.collections.CapacityCalculator;
import com.bytefacets.collections.NumUtils;
import com.bytefacets.collections.types.CompareMethod;
import com.bytefacets.collections.types.IntType;
import com.bytefacets.collections.types.Pack;
import com.bytefacets.collections.types.PredicateMethod;
import java.lang.invoke.MethodHandle;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.nio.ByteBuffer;
import java.nio.ByteOrder;
import java.time.LocalDate;
import java.time.LocalTime;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Comparator;
import java.util.List;
import java.util.Objects;
import java.util.concurrent.atomic.AtomicLong;

/** C21 to C24. */
final class TypeChecks {
    private TypeChecks() {}

    static void register() {
        Main.CHECKS.put("C21", TypeChecks::c21);
        Main.CHECKS.put("C22", TypeChecks::c22);
        Main.CHECKS.put("C23", TypeChecks::c23);
        Main.CHECKS.put("C24", TypeChecks::c24);
    }

    // ------------------------------------------------------------------ comparators, predicates

    /** One comparator under observation. */
    private static final class Cmp {
        final T t;
        final String name;
        final Object cmp;
        final MethodHandle compare;
        final Comparator<Object> oracle; // null: any order that tells its values apart

        Cmp(final T t, final String name, final Object cmp, final Comparator<Object> oracle) {
            this.t = t;
            this.name = t.lib + "Type." + name;
            this.cmp = cmp;
            compare = Lib.m(Lib.cls("types." + t.lib + "Type$Cmp"), "compare", 2);
            this.oracle = oracle;
        }

        int of(final Object a, final Object b) throws Throwable {
            return Integer.signum((Integer) (Object) compare.invokeExact(cmp, a, b));
        }
    }

    private static Comparator<Object> rev(final Comparator<Object> c) {
        return c == null ? null : c.reversed();
    }

    /** Ascending forms paired with their descending forms. */
    private static List<Cmp[]> cmps(final T t) throws Throwable {
        final Class<?> c = Lib.typeClass(t);
        final List<Cmp[]> out = new ArrayList<>();
        final Comparator<Object> nat = t == T.BOOL ? null : t.asc();
        out.add(new Cmp[] {new Cmp(t, "Asc", Lib.constant(c, "Asc"), nat),
            new Cmp(t, "Desc", Lib.constant(c, "Desc"), rev(nat))});
        if (t == T.STRING) {
            out.add(new Cmp[] {new Cmp(t, "AscInsensitive", Lib.constant(c, "AscInsensitive"), t.abs()),
                new Cmp(t, "DescInsensitive", Lib.constant(c, "DescInsensitive"), rev(t.abs()))});
        } else if (t != T.BOOL && t != T.GENERIC) {
            out.add(new Cmp[] {new Cmp(t, "AbsAsc", Lib.constant(c, "AbsAsc"), t.abs()),
                new Cmp(t, "AbsDesc", Lib.constant(c, "AbsDesc"), rev(t.abs()))});
        }
        if (t != T.GENERIC) {
            final MethodHandle f = Lib.m(c, "comparatorFor", 1);
            out.add(new Cmp[] {
                new Cmp(t, "comparatorFor(Ascending)", (Object) f.invokeExact((Object) CompareMethod.Ascending), nat),
                new Cmp(t, "comparatorFor(Descending)", (Object) f.invokeExact((Object) CompareMethod.Descending),
                        rev(nat))});
            if (t != T.BOOL) {
                out.add(new Cmp[] {
                    new Cmp(t, "comparatorFor(AscendingAbsolute)",
                            (Object) f.invokeExact((Object) CompareMethod.AscendingAbsolute), t.abs()),
                    new Cmp(t, "comparatorFor(DescendingAbsolute)",
                            (Object) f.invokeExact((Object) CompareMethod.DescendingAbsolute), rev(t.abs()))});
            }
        }
        return out;
    }

    private static boolean zero(final Object o) {
        return o instanceof Float f && f == 0 || o instanceof Double d && d == 0;
    }

    private static void compare(final Case c, final Cmp[] pair, final Object a, final Object b)
            throws Throwable {
        for (Cmp q : pair) {
            final int ab = q.of(a, b);
            final int ba = q.of(b, a);
            c.check(ab == -ba, q.name + " answers " + ab + " for (" + T.show(a) + ", " + T.show(b)
                    + ") and " + ba + " for the reverse");
            if (q.oracle == null) {
                c.check((ab == 0) == a.equals(b), q.name + " compares " + a + " and " + b + " as " + ab);
            } else if (!(zero(a) && zero(b))) {
                c.eq(Integer.signum(q.oracle.compare(a, b)), ab, q.name + " of (" + T.show(a) + ", "
                        + T.show(b) + ")");
            }
            c.eq(0, q.of(a, a), q.name + " of " + T.show(a) + " and itself");
        }
        c.eq(pair[0].of(b, a), pair[1].of(a, b), pair[1].name + " of (" + T.show(a) + ", " + T.show(b)
                + ") against the reverse of " + pair[0].name);
    }

    private static void transitive(final Case c, final Cmp q, final Object a, final Object b,
            final Object d) throws Throwable {
        final int ab = q.of(a, b);
        final int bd = q.of(b, d);
        final int ad = q.of(a, d);
        final boolean ok = ab <= 0 && bd <= 0 ? ad == Math.min(ab, bd)
                : ab >= 0 && bd >= 0 ? ad == Math.max(ab, bd) : true;
        c.check(ok, q.name + " is not transitive on " + T.show(a) + ", " + T.show(b) + ", " + T.show(d)
                + ": " + ab + ", " + bd + ", " + ad);
    }

    /** Comparable values of the type. */
    private static Object value(final T t, final Rng r) {
        if (t != T.GENERIC) {
            return t.gen(r);
        }
        final int id = r.nextInt(40) - 20;
        return r.nextInt(8) == 0 ? null : new T.Coll(id, id % 3);
    }

    private static List<Object> specials(final T t) {
        final List<Object> out = new ArrayList<>();
        switch (t) {
            case BOOL:
                out.add(true);
                out.add(false);
                break;
            case FLOAT:
                for (float f : T.FSPECIAL) {
                    out.add(f);
                }
                out.add(Float.intBitsToFloat(0x7fc00001));
                out.add(Float.intBitsToFloat(0xffc00001));
                break;
            case DOUBLE:
                for (double f : T.DSPECIAL) {
                    out.add(f);
                }
                out.add(Double.longBitsToDouble(0x7ff8000000000001L));
                out.add(Double.longBitsToDouble(0xfff8000000000001L));
                break;
            case STRING:
                out.addAll(Arrays.asList(null, "", "a", "A", "b", "B", "ab", "AB", "aB", "abc", "z", "Z",
                        "\u00df", "\u0130", "i", "I", "\u0131", "_", "[", "\uffff", "\ud83d\ude00", "0", " "));
                out.add(new String("a"));
                break;
            case GENERIC:
                out.add(null);
                for (int i = -5; i < 6; i++) {
                    out.add(new T.Coll(i, 1));
                    out.add(new T.Coll(i, 1));
                }
                break;
            default:
                for (long l : T.LSPECIAL) {
                    switch (t) {
                        case BYTE:
                            out.add((byte) l);
                            break;
                        case SHORT:
                            out.add((short) l);
                            break;
                        case CHAR:
                            out.add((char) l);
                            break;
                        case INT:
                            out.add((int) l);
                            break;
                        default:
                            out.add(l);
                            break;
                    }
                }
                break;
        }
        return out;
    }

    private static Boolean operator(final T t, final PredicateMethod m, final Object a, final Object b) {
        final int s;
        switch (t) {
            case BOOL:
            case GENERIC:
                return m == PredicateMethod.EQ ? (Boolean) Objects.equals(a, b)
                        : m == PredicateMethod.NEQ ? (Boolean) !Objects.equals(a, b) : null;
            case FLOAT:
            case DOUBLE:
                {
                    final double x = ((Number) a).doubleValue();
                    final double y = ((Number) b).doubleValue();
                    switch (m) {
                        case EQ:
                            return x == y;
                        case NEQ:
                            return x != y;
                        case LT:
                            return x < y;
                        case GT:
                            return x > y;
                        case LTE:
                            return x <= y;
                        default:
                            return x >= y;
                    }
                }
            default:
                s = t.asc().compare(a, b);
                break;
        }
        switch (m) {
            case EQ:
                return s == 0;
            case NEQ:
                return s != 0;
            case LT:
                return s < 0;
            case GT:
                return s > 0;
            case LTE:
                return s <= 0;
            default:
                return s >= 0;
        }
    }

    /** Predicates, equality and hash of one pair. */
    private static void predicates(final Case c, final T t, final Object a, final Object b)
            throws Throwable {
        final Class<?> k = Lib.typeClass(t);
        final MethodHandle test = Lib.cached("Pred" + t,
                x -> Lib.m(Lib.cls("types." + t.lib + "Type$Pred"), "test", 2));
        final MethodHandle f = Lib.cached("predicateFor" + t, x -> Lib.m(k, "predicateFor", 1));
        for (PredicateMethod m : PredicateMethod.values()) {
            final Boolean e = operator(t, m, a, b);
            if (e == null) {
                continue;
            }
            final Object own = Lib.cached("IS" + m + t, x -> Lib.constant(k, "IS_" + m));
            c.eq(e, (Object) test.invokeExact(own, a, b), t.lib + "Type.IS_" + m + " of (" + T.show(a) + ", "
                    + T.show(b) + ")");
            final Object p = (Object) f.invokeExact((Object) m);
            c.eq(e, (Object) test.invokeExact(p, a, b), t.lib + "Type.predicateFor(" + m + ") of ("
                    + T.show(a) + ", " + T.show(b) + ")");
        }
    }

    private static void equality(final Case c, final T t, final Object a, final Object b)
            throws Throwable {
        final Class<?> k = Lib.typeClass(t);
        final Object eq = Lib.cached("EqImpl" + t, x -> Lib.constant(k, "EqImpl"));
        final Object hash = Lib.cached("HashImpl" + t, x -> Lib.constant(k, "HashImpl"));
        final MethodHandle areEqual = Lib.cached("areEqual" + t,
                x -> Lib.m(Lib.cls("types." + t.lib + "Type$Eq"), "areEqual", 2));
        final MethodHandle code = Lib.cached("code" + t,
                x -> Lib.m(Lib.cls("types." + t.lib + "Type$Hash"), "code", 1));
        final boolean e = operator(t, PredicateMethod.EQ, a, b);
        c.eq(e, (Object) areEqual.invokeExact(eq, a, b), t.lib + "Type.EqImpl of (" + T.show(a) + ", "
                + T.show(b) + ")");
        final Object ha = (Object) code.invokeExact(hash, a);
        c.eq(ha, (Object) code.invokeExact(hash, a), t.lib + "Type.HashImpl of " + T.show(a) + " again");
        if (e && !(zero(a) && zero(b))) {
            c.eq(ha, (Object) code.invokeExact(hash, b), t.lib + "Type.HashImpl of equal values "
                    + T.show(a) + " and " + T.show(b));
        }
        if (t == T.DOUBLE) {
            final Object near = Lib.cached("EqEpsilon", x -> Lib.constant(k, "EqEpsilon"));
            final double d = Math.abs((Double) a - (Double) b);
            final Object n = (Object) areEqual.invokeExact(near, a, b);
            c.eq(n, (Object) areEqual.invokeExact(near, b, a), "DoubleType.EqEpsilon of (" + b + ", " + a
                    + ") against its reverse");
            if (d < 0.5e-10 || d > 2e-10) { // at the threshold itself rounding decides, NaN is left open
                c.eq(d < 1e-10, n, "DoubleType.EqEpsilon of (" + a + ", " + b + ")");
                c.count(d == 0 ? "equal doubles" : d < 1e-10 ? "near doubles" : "far doubles");
            }
        }
    }

    /** A copy that is equal but not the same object. */
    private static Object copy(final Object a) {
        return a instanceof String s ? new String(s)
                : a instanceof T.Coll k ? new T.Coll(k.id, k.hash) : a;
    }

    private static int c21(final Ctx x) throws Throwable {
        x.rule = "A case is one batch of value pairs and triples of one of the ten types put through every"
                + " comparator, predicate, equality and hash function of the type (all pairs and triples"
                + " of a table of special values, all pairs of bytes, and random values); non-trivial if"
                + " it compared at least two different values; distinct by a hash of the values.";
        x.assume("for signed zeros the numeric tie or Java's refinement (-0.0 before 0.0) are both accepted");
        x.assume("generic values compared with one another are mutually comparable and consistent");
        x.parallel("special", 10, c -> {
            final T t = T.ALL[c.index];
            final List<Object> vs = specials(t);
            c.config(t.lib, "special values", vs.size());
            final List<Cmp[]> cs = cmps(t);
            for (Object a : vs) {
                for (Object b : vs) {
                    c.op(t.lib, a, b);
                    for (Cmp[] q : cs) {
                        compare(c, q, a, b);
                    }
                    if (t != T.GENERIC) {
                        predicates(c, t, a, b);
                    }
                    equality(c, t, a, b);
                    for (Object d : vs) {
                        for (Cmp[] q : cs) {
                            transitive(c, q[0], a, b, d);
                            transitive(c, q[1], a, b, d);
                        }
                    }
                }
                equality(c, t, a, copy(a));
            }
            if (t == T.BOOL || t == T.GENERIC) {
                refusedMembers(c, t);
            }
            if (t == T.GENERIC) { // its predicates take strings
                for (Object a : specials(T.STRING)) {
                    for (Object b : specials(T.STRING)) {
                        predicates(c, t, a, b);
                        equality(c, t, a, b);
                    }
                }
            }
            c.nontrivial = true;
            c.count("types with all special triples");
        });
        x.parallel("bytes", 256, c -> {
            final List<Cmp[]> cs = cmps(T.BYTE);
            c.config("Byte", c.index);
            final Object a = (byte) c.index;
            for (int j = 0; j < 256; j++) {
                c.op("Byte", a, (byte) j);
                for (Cmp[] q : cs) {
                    compare(c, q, a, (byte) j);
                }
                predicates(c, T.BYTE, a, (byte) j);
                equality(c, T.BYTE, a, (byte) j);
            }
            c.nontrivial = true;
            c.count("byte pairs", 256);
        });
        x.parallel("random", x.n(3000, 100000), c -> {
            final T t = T.ALL[c.index % 10];
            c.config(t.lib);
            final List<Cmp[]> cs = cmps(t);
            for (int i = 0; i < 60; i++) {
                final Object a = value(t, c.r);
                final Object b = c.r.nextInt(6) == 0 ? copy(a) : value(t, c.r);
                final Object d = value(t, c.r);
                c.op(t.lib, a, b);
                c.nontrivial |= !Objects.equals(a, b);
                for (Cmp[] q : cs) {
                    compare(c, q, a, b);
                    transitive(c, q[0], a, b, d);
                    transitive(c, q[1], a, b, d);
                    transitive(c, q[0], d, a, b);
                    transitive(c, q[0], b, d, a);
                }
                if (t != T.GENERIC) {
                    predicates(c, t, a, b);
                    equality(c, t, a, b);
                } else {
                    equality(c, t, t.gen(c.r), t.gen(c.r));
                    equality(c, t, a, b);
                    predicates(c, t, T.STRING.gen(c.r), T.STRING.gen(c.r));
                }
            }
            c.count("random pairs", 60);
        });
        x.parallel("neighbours", x.n(400, 10000), c -> {
            // values around a random one and around differences that overflow
            final T t = new T[] {T.INT, T.LONG, T.DOUBLE, T.FLOAT, T.SHORT, T.CHAR}[c.index % 6];
            c.config(t.lib);
            final List<Cmp[]> cs = cmps(t);
            for (int i = 0; i < 60; i++) {
                Object a = t.gen(c.r);
                final Object b;
                final int k = c.r.nextInt(3) - 1;
                switch (t) {
                    case INT:
                        b = c.r.nextBoolean() ? (Integer) a + k : -(Integer) a + k;
                        break;
                    case LONG:
                        b = c.r.nextInt(3) == 0 ? (Long) ((Long) a + k) : c.r.nextBoolean()
                                ? (Long) (-(Long) a + k) : (Long) ((Long) a ^ 1L << c.r.nextInt(64));
                        break;
                    case SHORT:
                        b = (short) ((Short) a + k);
                        break;
                    case CHAR:
                        b = (char) ((Character) a + k);
                        break;
                    case FLOAT:
                        b = k < 0 ? Math.nextDown((Float) a) : k > 0 ? Math.nextUp((Float) a) : -(Float) a;
                        break;
                    default:
                        if (c.r.nextInt(3) == 0) {
                            a = (c.r.nextDouble() - 0.5) * 2000;
                            b = (Double) a + (k == 0 ? -1 : k) * c.r.nextDouble() * Math.pow(10, -c.r.nextInt(14));
                            break;
                        }
                        b = k < 0 ? Math.nextDown((Double) a) : k > 0 ? Math.nextUp((Double) a)
                                : (Object) (-(Double) a);
                        break;
                }
                c.op(t.lib, a, b);
                for (Cmp[] q : cs) {
                    compare(c, q, a, b);
                }
                predicates(c, t, a, b);
                equality(c, t, a, b);
            }
            c.nontrivial = true;
            c.count("neighbouring pairs", 60);
        });
        return x.finish("types with all special triples", "byte pairs", "random pairs",
                "neighbouring pairs", "near doubles", "far doubles", "unnamed members refused");
    }

    private static void refusedMembers(final Case c, final T t) throws Throwable {
        final Class<?> k = Lib.typeClass(t);
        final MethodHandle p = Lib.m(k, "predicateFor", 1);
        for (PredicateMethod m : PredicateMethod.values()) {
            if (operator(t, m, "a", "b") == null) {
                Object got = null;
                try {
                    got = (Object) p.invokeExact((Object) m);
                } catch (RuntimeException e) {
                    c.count("unnamed members refused");
                }
                c.check(got == null, t.lib + "Type.predicateFor(" + m + ") gives a predicate");
            }
        }
        if (t == T.BOOL) {
            final MethodHandle f = Lib.m(k, "comparatorFor", 1);
            for (CompareMethod m : new CompareMethod[] {CompareMethod.AscendingAbsolute,
                CompareMethod.DescendingAbsolute}) {
                Object got = null;
                try {
                    got = (Object) f.invokeExact((Object) m);
                } catch (RuntimeException e) {
                    c.count("unnamed members refused");
                }
                c.check(got == null, "BoolType.comparatorFor(" + m + ") gives a comparator");
            }
        }
    }

    // ------------------------------------------------------------------ binary encoding

    private static final T[] FIXED = {T.BOOL, T.BYTE, T.SHORT, T.CHAR, T.INT, T.LONG, T.FLOAT, T.DOUBLE};
    private static final int[] WIDTH = {1, 1, 2, 2, 4, 8, 4, 8};

    private static final class Codec {
        final T t;
        final int width;
        final MethodHandle[] write;
        final MethodHandle[] read;

        Codec(final int i) {
            t = FIXED[i];
            width = WIDTH[i];
            final Class<?> k = Lib.typeClass(t);
            write = new MethodHandle[] {Lib.m(k, "writeLE", 3), Lib.m(k, "writeBE", 3)};
            read = new MethodHandle[] {Lib.m(k, "readLE", 2), Lib.m(k, "readBE", 2)};
        }

        static Codec of(final int i) {
            return Lib.cached("Codec" + i, k -> new Codec(i));
        }

        void expect(final byte[] a, final int pos, final Object v, final boolean be) {
            final ByteBuffer b = ByteBuffer.wrap(a)
                    .order(be ? ByteOrder.BIG_ENDIAN : ByteOrder.LITTLE_ENDIAN);
            switch (t) {
                case BOOL:
                    b.put(pos, (byte) ((Boolean) v ? 1 : 0));
                    break;
                case BYTE:
                    b.put(pos, (Byte) v);
                    break;
                case SHORT:
                    b.putShort(pos, (Short) v);
                    break;
                case CHAR:
                    b.putChar(pos, (Character) v);
                    break;
                case INT:
                    b.putInt(pos, (Integer) v);
                    break;
                case LONG:
                    b.putLong(pos, (Long) v);
                    break;
                case FLOAT:
                    b.putInt(pos, Float.floatToRawIntBits((Float) v));
                    break;
                default:
                    b.putLong(pos, Double.doubleToRawLongBits((Double) v));
                    break;
            }
        }

        int write(final byte[] a, final int pos, final Object v, final boolean be) throws Throwable {
            return (Integer) (Object) write[be ? 1 : 0].invokeExact((Object) a, (Object) pos, v);
        }

        Object read(final byte[] a, final int pos, final boolean be) throws Throwable {
            return (Object) read[be ? 1 : 0].invokeExact((Object) a, (Object) pos);
        }

        String name(final String what, final boolean be) {
            return t.lib + "Type." + what + (be ? "BE" : "LE");
        }
    }

    private static void encode(final Case c, final Codec k, final Object v, final boolean be,
            final byte[] array, final int pos) throws Throwable {
        final byte[] expected = array.clone();
        k.expect(expected, pos, v, be);
        c.op(k.name("write", be), pos, v);
        c.eq(pos + k.width, k.write(array, pos, v, be), k.name("write", be) + " returned position");
        c.checks++;
        if (!Arrays.equals(expected, array)) {
            c.fail(k.name("write", be) + "(" + T.show(v) + ") at " + pos + " gives " + Arrays.toString(array)
                    + " instead of " + Arrays.toString(expected));
        }
        c.eq(SortChecks.bits(v), SortChecks.bits(k.read(array, pos, be)), k.name("read", be) + " of "
                + T.show(v));
        c.check(Arrays.equals(expected, array), k.name("read", be) + " changed the array");
    }

    private static int c22(final Ctx x) throws Throwable {
        x.rule = "A case is a batch of values of one fixed-width type written at random positions of"
                + " arrays with random content in both byte orders, or one stream of mixed values; all"
                + " 8- and 16-bit values are covered, wider ones by every single-byte and bit pattern,"
                + " specials and random values; distinct by a hash of the values and positions.";
        x.parallel("all 16-bit values", 512, c -> {
            final Codec k = Codec.of(c.index < 256 ? 2 : 3);
            c.config(k.t.lib, "high byte", c.index & 255);
            for (int i = 0; i < 256; i++) {
                final int n = (c.index & 255) << 8 | i;
                final Object v = k.t == T.SHORT ? (Object) (short) n : (Object) (char) n;
                for (int be = 0; be < 2; be++) {
                    final byte[] a = bytes(c.r, 2 + c.r.nextInt(6));
                    encode(c, k, v, be == 1, a, c.r.nextInt(a.length - 1));
                }
            }
            c.nontrivial = true;
            c.count("16-bit values", 256);
        });
        x.parallel("all bytes", 2, c -> {
            final Codec k = Codec.of(c.index);
            c.config(k.t.lib);
            for (int i = 0; i < 256; i++) {
                for (int be = 0; be < 2; be++) {
                    final byte[] a = bytes(c.r, 1 + c.r.nextInt(6));
                    encode(c, k, k.t == T.BYTE ? (Object) (byte) i : (Object) ((i & 1) == 1), be == 1, a,
                            c.r.nextInt(a.length));
                }
            }
            c.nontrivial = true;
        });
        x.parallel("wide", x.n(6000, 300000), c -> {
            final Codec k = Codec.of(4 + c.index % 4);
            c.config(k.t.lib);
            for (int i = 0; i < 40; i++) {
                final long bits;
                switch (c.r.nextInt(6)) {
                    case 0:
                        bits = (long) (1 + c.r.nextInt(255)) << 8 * c.r.nextInt(8);
                        break;
                    case 1:
                        bits = 1L << c.r.nextInt(64);
                        break;
                    case 2:
                        bits = ~(0xffL << 8 * c.r.nextInt(8));
                        break;
                    case 3:
                        bits = k.width == 4 ? 0x7f800000L | c.r.nextInt(1 << 23)
                                | (c.r.nextBoolean() ? 0x80000000L : 0)
                                : 0x7ff0000000000000L | c.r.nextLong();
                        break;
                    default:
                        bits = c.r.nextLong();
                        break;
                }
                Object v = k.t.gen(c.r);
                if (c.r.nextInt(4) != 0) {
                    v = k.t == T.INT ? (Object) (int) bits : k.t == T.LONG ? (Object) bits
                            : k.t == T.FLOAT ? (Object) Float.intBitsToFloat((int) bits)
                            : (Object) Double.longBitsToDouble(bits);
                }
                final byte[] a = bytes(c.r, k.width + c.r.nextInt(12));
                encode(c, k, v, c.r.nextBoolean(), a, c.r.nextInt(a.length - k.width + 1));
            }
            c.nontrivial = true;
            c.count("wide values", 40);
        });
        x.parallel("streams", x.n(3000, 100000), c -> {
            final int n = c.r.range(2, 60);
            final byte[] a = bytes(c.r, 8 * n + 5);
            final Object[] vs = new Object[n];
            final int[] ks = new int[n];
            final boolean[] be = new boolean[n];
            final int start = c.r.nextInt(6);
            int pos = start;
            c.config("stream", n);
            for (int i = 0; i < n; i++) {
                ks[i] = c.r.nextInt(8);
                be[i] = c.r.nextBoolean();
                vs[i] = FIXED[ks[i]].gen(c.r);
                final Codec k = Codec.of(ks[i]);
                c.op(k.name("write", be[i]), pos, vs[i]);
                pos = k.write(a, pos, vs[i], be[i]);
            }
            pos = start;
            for (int i = 0; i < n; i++) {
                final Codec k = Codec.of(ks[i]);
                c.eq(SortChecks.bits(vs[i]), SortChecks.bits(k.read(a, pos, be[i])),
                        "value " + i + " of the stream, " + k.name("read", be[i]));
                pos += k.width;
            }
            c.nontrivial = true;
            c.count("streams");
        });
        return x.finish("16-bit values", "wide values", "streams");
    }

    private static byte[] bytes(final Rng r, final int n) {
        final byte[] a = new byte[n];
        for (int i = 0; i < n; i++) {
            a[i] = (byte) r.nextInt(256);
        }
        return a;
    }

    // ------------------------------------------------------------------ conversions

    private static final Object BAD = new Object();

    /** Java's own conversion of a supported argument; BAD where Java refuses it too. */
    private static Object convert(final T t, final Object v) {
        if (v == null) {
            return t.def();
        }
        if (t == T.STRING) {
            return v.toString();
        }
        if (t == T.GENERIC) {
            return v;
        }
        if (v instanceof Number n) {
            switch (t) {
                case BOOL:
                    return n.intValue() != 0;
                case CHAR:
                    return (char) n.intValue();
                default:
                    return number(t, n);
            }
        }
        if (v instanceof Boolean b) {
            switch (t) {
                case BOOL:
                    return b;
                case CHAR:
                    return b ? com.bytefacets.collections.types.CharType.TRUE
                            : com.bytefacets.collections.types.CharType.FALSE;
                default:
                    return number(t, b ? 1 : 0);
            }
        }
        if (v instanceof String s) {
            return parse(t, s);
        }
        return BAD;
    }

    private static Object number(final T t, final Number n) {
        switch (t) {
            case BYTE:
                return n.byteValue();
            case SHORT:
                return n.shortValue();
            case INT:
                return n.intValue();
            case LONG:
                return n.longValue();
            case FLOAT:
                return n.floatValue();
            default:
                return n.doubleValue();
        }
    }

    private static Object parse(final T t, final String s) {
        try {
            switch (t) {
                case BOOL:
                    return Boolean.parseBoolean(s);
                case BYTE:
                    return Byte.parseByte(s);
                case SHORT:
                    return Short.parseShort(s);
                case CHAR:
                    return s.isEmpty() ? t.def() : s.charAt(0);
                case INT:
                    return Integer.parseInt(s);
                case LONG:
                    return Long.parseLong(s);
                case FLOAT:
                    return Float.parseFloat(s);
                case DOUBLE:
                    return Double.parseDouble(s);
                default:
                    return s;
            }
        } catch (NumberFormatException e) {
            return BAD;
        }
    }

    /** Just above or below the middle between two floats, closer than a double can tell. */
    private static BigInteger midpoint(final Rng r, final int max) {
        final int exponent = r.range(31, max - 24);
        return BigInteger.valueOf(r.nextLong() & 0x7fffff | 0x800000).shiftLeft(exponent)
                .add(BigInteger.ONE.shiftLeft(exponent - 1)).add(BigInteger.valueOf(r.nextInt(3) - 1))
                .multiply(BigInteger.valueOf(r.nextBoolean() ? 1 : -1));
    }

    private static Number anyNumber(final Rng r) {
        switch (r.nextInt(13)) {
            case 10:
                return midpoint(r, 63).longValue();
            case 11:
                return midpoint(r, 120);
            case 12:
                return new BigDecimal(midpoint(r, 120), r.nextInt(20));
            case 0:
                return (Byte) T.BYTE.gen(r);
            case 1:
                return (Short) T.SHORT.gen(r);
            case 2:
                return (Integer) T.INT.gen(r);
            case 3:
            case 4:
                return (Long) T.LONG.gen(r);
            case 5:
                return (Float) T.FLOAT.gen(r);
            case 6:
                return (Double) T.DOUBLE.gen(r);
            case 7:
                return BigInteger.valueOf((Long) T.LONG.gen(r)).shiftLeft(r.nextInt(40));
            case 8:
                return BigDecimal.valueOf((Long) T.LONG.gen(r), r.nextInt(20));
            default:
                return new AtomicLong((Long) T.LONG.gen(r));
        }
    }

    private static String anyString(final T t, final Rng r) {
        switch (r.nextInt(9)) {
            case 8:
                return midpoint(r, r.pickInt(63, 120)) + r.pick("", "", ".0", "e-5");
            case 0:
                return r.pick("", " ", "x", "tRue", "true", "TRUE", "false", "yes", "1", "0", "t", "f",
                        "+5", "-0", "007", "1e3", "NaN", "-Infinity", "0x10", "128", "-129", "32768",
                        "65536", "2147483648", "-2147483649", "9223372036854775808", "1.5", "--1", "1_0",
                        "\u0663", "10L", "5f", "3d", " 7", "7 ");
            case 1:
                return String.valueOf((Object) T.STRING.gen(r));
            case 2:
                return String.valueOf(anyNumber(r));
            default:
                return String.valueOf((Object) t.gen(r));
        }
    }

    private static void same(final Case c, final Object expected, final MethodHandle h, final Object arg,
            final String what) throws Throwable {
        Object got;
        try {
            got = (Object) h.invokeExact(arg);
        } catch (IllegalArgumentException e) {
            got = BAD;
        }
        c.checks++;
        if (expected == BAD || got == BAD) {
            if (expected != got) {
                c.fail(what + " of " + T.show(arg) + (got == BAD ? " is refused instead of giving "
                        + T.show(expected) : " gives " + T.show(got) + " instead of being refused"));
            }
            c.count("refused strings");
            return;
        }
        final boolean ok = expected instanceof Float || expected instanceof Double
                ? expected.equals(got) : Objects.equals(expected, got);
        if (!ok) {
            c.fail(what + " of " + T.show(arg) + " gives " + T.show(got) + " instead of " + T.show(expected));
        }
    }

    private static int c23(final Ctx x) throws Throwable {
        x.rule = "A case is a batch of arguments (null, numbers of every kind, strings, booleans, own"
                + " values) put through every conversion of one type and compared with Java's own, or a"
                + " batch of dates and times encoded and decoded; distinct by a hash of the arguments.";
        x.assume("numbers converted to bool are such that they are zero exactly when their int value is");
        x.assume("dates of the years 0 to 9999");
        x.parallel("types", x.n(6000, 200000), TypeChecks::conversions);
        x.parallel("dates", x.n(500, 20000), c -> {
            c.config("dates", c.index);
            for (int i = 0; i < 100; i++) {
                final LocalDate d = c.index < 100 ? LocalDate.of(1969, 1, 1).plusDays(c.index * 400 + i * 4)
                        : LocalDate.ofEpochDay(c.r.range(-719528, 2932896));
                c.op("date", d);
                final int n = IntType.fromLocalDate(d);
                c.eq(d.getYear() * 10000 + d.getMonthValue() * 100 + d.getDayOfMonth(), n, "number of " + d);
                c.eq(d, IntType.toLocalDate(n), "date of " + n);
                c.eq(n, IntType.toYYYMMDD(d.getYear(), d.getMonthValue(), d.getDayOfMonth()),
                        "toYYYMMDD of " + d);
                c.eq(n, IntType.convert(d), "convert of " + d);
                if (d.getYear() > 1600) {
                    @SuppressWarnings("deprecation")
                    final java.util.Date old = new java.util.Date(d.getYear() - 1900,
                            d.getMonthValue() - 1, d.getDayOfMonth());
                    c.eq(n, IntType.fromSqlDate(old), "fromSqlDate of " + d);
                }
            }
            c.nontrivial = true;
            c.count("dates", 100);
        });
        x.parallel("times", 96, c -> {
            c.config("times", c.index);
            for (int s = c.index * 900; s < c.index * 900 + 900; s++) {
                final LocalTime t = LocalTime.ofSecondOfDay(s);
                c.op("time", t);
                final int n = IntType.fromLocalTime(t);
                c.eq(t.getHour() * 10000 + t.getMinute() * 100 + t.getSecond(), n, "number of " + t);
                c.eq(t, IntType.toLocalTime(n), "time of " + n);
                c.eq(n, IntType.toHHMMSS(t.getHour(), t.getMinute(), t.getSecond()), "toHHMMSS of " + t);
                c.eq(n, IntType.convert(t), "convert of " + t);
                c.eq(n, IntType.convert(t.plusNanos(c.r.nextInt(1_000_000_000))), "convert with nanos");
            }
            c.nontrivial = true;
            c.count("times", 900);
        });
        return x.finish("numbers", "strings", "booleans", "own values", "dates", "times", "refused strings");
    }

    private static void conversions(final Case c) throws Throwable {
        final T t = T.ALL[c.index % 10];
        final Class<?> k = Lib.typeClass(t);
        final String n = t.lib + "Type.";
        c.config(t.lib);
        final MethodHandle convert = Lib.cached("convert" + t, z -> Lib.m(k, "convert", Object.class));
        final MethodHandle unbox = Lib.cached("unbox" + t, z -> Lib.m(k, "unbox", Object.class));
        final MethodHandle box = Lib.cached("box" + t, z -> Lib.m(k, "box", 1));
        final MethodHandle parse = Lib.cached("parse" + t, z -> Lib.m(k, "parseString", 1));
        final MethodHandle toInt = Lib.cached("toInt" + t, z -> Lib.m(k, "castToInt", 1));
        final MethodHandle fromInt = t == T.INT ? null
                : Lib.cached("fromInt" + t, z -> Lib.m(k, "castTo" + t.lib, 1));
        final Rng r = c.r;
        same(c, t.def(), convert, null, n + "convert");
        same(c, t.def(), unbox, null, n + "unbox");
        c.eq(t.def(), Lib.constant(k, "DEFAULT"), n + "DEFAULT");
        for (int i = 0; i < 12; i++) {
            final Number num = anyNumber(r);
            c.op(n + "convert", num);
            if (t != T.BOOL || (num.intValue() != 0) == (num.doubleValue() != 0)) {
                same(c, convert(t, num), convert, num, n + "convert");
            }
            c.count("numbers");
            if (t != T.BOOL && t != T.CHAR && t != T.STRING) {
                same(c, t == T.GENERIC ? num : number(t, num), unbox, num, n + "unbox");
            }
            final String s = anyString(t, r);
            c.op(n + "convert", s);
            same(c, convert(t, s), convert, s, n + "convert");
            same(c, parse(t, s), parse, s, n + "parseString");
            c.count("strings");
            final Boolean b = r.nextBoolean();
            same(c, convert(t, b), convert, b, n + "convert");
            c.count("booleans");
            // own values
            final Object v = t.gen(r);
            c.op(n + "own value", v);
            same(c, v, convert, t == T.STRING || t == T.GENERIC ? v : v, n + "convert");
            same(c, v, unbox, v, n + "unbox");
            same(c, v, box, v, n + "box");
            if (t != T.GENERIC && t != T.STRING) {
                same(c, v, convert, String.valueOf(v), n + "convert of the string form");
                same(c, v, parse, String.valueOf(v), n + "parseString of the string form");
            }
            c.count("own values");
            final int j = (Integer) T.INT.gen(r);
            c.op(n + "cast", j);
            switch (t) {
                case BOOL:
                    same(c, (Boolean) v ? 1 : 0, toInt, v, n + "castToInt");
                    same(c, j != 0, fromInt, j, n + "castToBool");
                    break;
                case CHAR:
                    same(c, (int) (Character) v, toInt, v, n + "castToInt");
                    same(c, (char) j, fromInt, j, n + "castToChar");
                    same(c, v, fromInt, (int) (Character) v, n + "castToChar back");
                    break;
                case STRING:
                    same(c, Integer.toString(j), fromInt, j, n + "castToString");
                    same(c, j, toInt, Integer.toString(j), n + "castToInt");
                    break;
                case GENERIC:
                    same(c, j, fromInt, j, n + "castToGeneric");
                    same(c, j, toInt, r.nextBoolean() ? (Object) j : Integer.toString(j), n + "castToInt");
                    break;
                default:
                    same(c, cast((Number) v), toInt, v, n + "castToInt");
                    if (fromInt != null) {
                        same(c, number(t, j), fromInt, j, n + "castTo" + t.lib);
                    }
                    break;
            }
            if (t == T.BYTE || t == T.SHORT || t == T.INT || t == T.LONG) {
                bits(c, t, k, n, v, t.gen(r));
            }
        }
        c.nontrivial = true;
    }

    private static int cast(final Number v) {
        return v instanceof Float f ? (int) (float) f : v instanceof Double d ? (int) (double) d
                : (int) v.longValue();
    }

    private static void bits(final Case c, final T t, final Class<?> k, final String n, final Object a,
            final Object b) throws Throwable {
        final MethodHandle on = Lib.cached("enableBits" + t, z -> Lib.m(k, "enableBits", 2));
        final MethodHandle off = Lib.cached("disableBits" + t, z -> Lib.m(k, "disableBits", 2));
        final long x = ((Number) a).longValue();
        final long y = ((Number) b).longValue();
        c.op(n + "bits", a, b);
        c.eq(number(t, x | y), (Object) on.invokeExact(a, b), n + "enableBits(" + a + ", " + b + ")");
        c.eq(number(t, x & ~y), (Object) off.invokeExact(a, b), n + "disableBits(" + a + ", " + b + ")");
    }

    // ------------------------------------------------------------------ packing, sizes

    private static int c24(final Ctx x) throws Throwable {
        x.rule = "A case is a batch of packings (every pair of bytes; pairs of shorts, ints and quadruples"
                + " of bytes from special and random values), power-of-two roundings or capacity"
                + " computations compared with independent arithmetic; distinct by a hash of the inputs.";
        x.assume("nextPowerOf2 is asked for 0 to 2^30, beyond which no int holds the answer");
        x.parallel("bytes", 256, c -> {
            c.config("bytes", c.index);
            final byte hi = (byte) c.index;
            for (int j = 0; j < 256; j++) {
                final byte lo = (byte) j;
                c.op("packToShort", hi, lo);
                final short s = Pack.packToShort(hi, lo);
                c.eq((c.index << 8 | j) & 0xffff, s & 0xffff, "packToShort(" + hi + ", " + lo + ")");
                c.eq(hi, Pack.unpackHiByte(s), "unpackHiByte of (" + hi + ", " + lo + ")");
                c.eq(lo, Pack.unpackLoByte(s), "unpackLoByte of (" + hi + ", " + lo + ")");
            }
            c.nontrivial = true;
            c.count("byte pairs", 256);
        });
        x.parallel("wide", x.n(20000, 600000), c -> {
            c.config("wide", c.index);
            for (int i = 0; i < 50; i++) {
                final int a = (Integer) T.INT.gen(c.r);
                final int b = (Integer) T.INT.gen(c.r);
                c.op("packToLong", a, b);
                final long l = Pack.packToLong(a, b);
                c.eq((a & 0xffffffffL) * 0x100000000L + (b & 0xffffffffL), l, "packToLong(" + a + ", " + b + ")");
                c.eq(a, Pack.unpackHiInt(l), "unpackHiInt of (" + a + ", " + b + ")");
                c.eq(b, Pack.unpackLoInt(l), "unpackLoInt of (" + a + ", " + b + ")");
                final short p = (Short) T.SHORT.gen(c.r);
                final short q = (Short) T.SHORT.gen(c.r);
                c.op("packToInt", p, q);
                final int n = Pack.packToInt(p, q);
                c.eq((p & 0xffff) * 65536 + (q & 0xffff), n, "packToInt(" + p + ", " + q + ")");
                c.eq(p, Pack.unpackHiShort(n), "unpackHiShort of (" + p + ", " + q + ")");
                c.eq(q, Pack.unpackLoShort(n), "unpackLoShort of (" + p + ", " + q + ")");
                final byte[] e = bytes(c.r, 4);
                if (c.r.nextBoolean()) {
                    e[c.r.nextInt(4)] = (byte) c.r.pickInt(0, -1, 127, -128, 1);
                    e[c.r.nextInt(4)] = (byte) c.r.pickInt(0, -1, 127, -128, 1);
                }
                c.op("packToInt", Arrays.toString(e));
                final int m = Pack.packToInt(e[0], e[1], e[2], e[3]);
                c.eq(ByteBuffer.wrap(e).getInt(), m, "packToInt" + Arrays.toString(e));
                c.eq(e[0], Pack.unpackHiByte(Pack.unpackHiShort(m)), "byte 1 of " + Arrays.toString(e));
                c.eq(e[1], Pack.unpackLoByte(Pack.unpackHiShort(m)), "byte 2 of " + Arrays.toString(e));
                c.eq(e[2], Pack.unpackHiByte(Pack.unpackLoShort(m)), "byte 3 of " + Arrays.toString(e));
                c.eq(e[3], Pack.unpackLoByte(Pack.unpackLoShort(m)), "byte 4 of " + Arrays.toString(e));
            }
            c.nontrivial = true;
            c.count("wide packings", 50);
        });
        x.parallel("powers", 1024, c -> {
            // thorough: every value from 0 to 2^30; quick: the edges of every power and a sample
            c.config("powers", c.index);
            final int from = c.index << 20;
            c.op("nextPowerOf2", from);
            final int step = x.thorough ? 1 : 997;
            int n = 0;
            for (long v = from + (x.thorough ? 0 : c.r.nextInt(997)); v <= from + (1L << 20); v += step) {
                power(c, (int) v);
                n++;
            }
            for (int b = 0; b <= 30; b++) {
                for (int d = -3; d <= 3; d++) {
                    final long v = (1L << b) + d;
                    if (v >= 0 && v <= 1 << 30) {
                        power(c, (int) v);
                        n++;
                    }
                }
            }
            c.checks += n;
            c.nontrivial = true;
            c.count("powers", n);
        });
        x.parallel("capacities", 100, c -> {
            final int max = 1 << 29;
            c.config("capacities", c.index);
            for (int b = 0; b <= 29; b++) {
                final int cap = 1 << b;
                final int threshold = c.r.pickInt(cap, cap / 2, Math.max(1, (int) (cap * 0.75)), 1);
                c.op("calculateNewCapacity", cap, threshold);
                capacity(c, cap, threshold, max);
            }
            for (int i = 0; i < 100; i++) {
                final int cap = c.r.pickInt(3, 5, 1000, max - 1, max / 2 + 1, max / 2 - 1, 1 + c.r.nextInt(max));
                final int threshold = 1 + c.r.nextInt(cap);
                c.op("calculateNewCapacity", cap, threshold);
                capacity(c, cap, threshold, max);
            }
            capacity(c, max, max, max);
            c.nontrivial = true;
            c.count("capacities");
        });
        return x.finish("byte pairs", "wide packings", "powers", "capacities", "growth refused");
    }

    private static void power(final Case c, final int v) {
        final int p = NumUtils.nextPowerOf2(v);
        if (p < v || p < 1 || Integer.bitCount(p) != 1 || (p > 1 && p / 2 >= v)) {
            c.fail("nextPowerOf2(" + v + ") is " + p);
        }
    }

    private static void capacity(final Case c, final int cap, final int threshold, final int max) {
        int n = -1;
        boolean refused = false;
        try {
            n = CapacityCalculator.calculateNewCapacity(c, cap, threshold);
        } catch (RuntimeException e) {
            refused = true;
            c.count("growth refused");
        }
        final String what = "new capacity of " + cap + " with threshold " + threshold;
        if (cap == max && threshold == max) {
            c.check(refused, what + " is " + n + " instead of being refused");
        } else {
            c.check(!refused, what + " is refused");
            c.eq(Math.min(2L * cap, max), n, what);
        }
    }
}
