package vf;

import java.lang.reflect.Array;
import java.util.Comparator;
import java.util.List;

/** The ten element types of the library with value generators and oracles of our own. */
enum T {
    BOOL("Bool", boolean.class),
    BYTE("Byte", byte.class),
    SHORT("Short", short.class),
    CHAR("Char", char.class),
    INT("Int", int.class),
    LONG("Long", long.class),
    FLOAT("Float", float.class),
    DOUBLE("Double", double.class),
    STRING("String", String.class),
    GENERIC("Generic", Object.class);

    static final T[] ALL = values();
    static final T[] KEYS = {BYTE, SHORT, CHAR, INT, LONG, FLOAT, DOUBLE, STRING, GENERIC};
    final String lib;
    final Class<?> cls;

    T(final String lib, final Class<?> cls) {
        this.lib = lib;
        this.cls = cls;
    }

    boolean isRef() {
        return this == STRING || this == GENERIC;
    }

    Object def() {
        return Array.get(Array.newInstance(cls, 1), 0);
    }

    Object newArray(final int n) {
        return Array.newInstance(cls, n);
    }

    /** An object with a chosen hash code: collides with many others, equal by id. */
    static final class Coll implements Comparable<Coll> {
        final long id;
        final int hash;

        Coll(final long id, final int hash) {
            this.id = id;
            this.hash = hash;
        }

        @Override
        public boolean equals(final Object o) {
            return o instanceof Coll c && c.id == id;
        }

        @Override
        public int hashCode() {
            return hash;
        }

        @Override
        public int compareTo(final Coll o) {
            final int c = Long.compare(id, o.id);
            return c == 0 || (id & 3) == 0 ? c // any number of the right sign will do
                    : c < 0 ? (id & 1) == 0 ? Integer.MIN_VALUE : -(int) (id & 0xffff) - 1
                            : (id & 1) == 0 ? Integer.MAX_VALUE : (int) (id & 0xffff) + 1;
        }

        @Override
        public String toString() {
            return "Coll" + id;
        }
    }

    static final long[] LSPECIAL = {
        0, 1, -1, 2, -2, Long.MIN_VALUE, Long.MAX_VALUE, Long.MIN_VALUE + 1, Long.MAX_VALUE - 1,
        Integer.MIN_VALUE, Integer.MAX_VALUE, 1L << 31, 1L << 32, -(1L << 32), 0xffffffffL,
        Integer.MIN_VALUE + 1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, 65535, 65536
    };
    static final double[] DSPECIAL = {
        0.0, -0.0, 1, -1, Double.NaN, Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY,
        Double.MIN_VALUE, -Double.MIN_VALUE, Double.MAX_VALUE, -Double.MAX_VALUE, Double.MIN_NORMAL,
        0.1, 1e300, -1e300, 1e-300, 9.007199254740993E15, 0.5, -0.5, 1e10, 1.0000000001
    };
    static final float[] FSPECIAL = {
        0f, -0f, 1, -1, Float.NaN, Float.POSITIVE_INFINITY, Float.NEGATIVE_INFINITY,
        Float.MIN_VALUE, -Float.MIN_VALUE, Float.MAX_VALUE, -Float.MAX_VALUE, Float.MIN_NORMAL,
        0.1f, 1.6777216E7f, 1.6777217E7f, 0.5f, -0.5f
    };

    /** A random value, special ones included. */
    Object gen(final Rng r) {
        final int m = r.nextInt(10);
        switch (this) {
            case BOOL:
                return r.nextBoolean();
            case BYTE:
                return (byte) bits(r, m);
            case SHORT:
                return (short) bits(r, m);
            case CHAR:
                return (char) bits(r, m);
            case INT:
                return (int) bits(r, m);
            case LONG:
                return bits(r, m);
            case FLOAT:
                if (m < 3) {
                    return FSPECIAL[r.nextInt(FSPECIAL.length)];
                }
                return m < 6
                        ? (float) r.nextInt(200) - 100
                        : Float.intBitsToFloat((int) r.nextLong());
            case DOUBLE:
                if (m < 3) {
                    return DSPECIAL[r.nextInt(DSPECIAL.length)];
                }
                return m < 6
                        ? (double) r.nextInt(200) - 100
                        : Double.longBitsToDouble(r.nextLong());
            case STRING:
                return m == 0 ? null : m == 1 ? new String("") : str(r);
            default:
                switch (m) {
                    case 0:
                        return null;
                    case 1:
                        return new String("");
                    case 2:
                        return Integer.valueOf((int) r.nextLong());
                    case 3:
                        return List.of(r.nextInt(5));
                    case 4:
                        final int id = r.nextInt(1000);
                        return new Coll(id, id % 3);
                    default:
                        return str(r);
                }
        }
    }

    private static long bits(final Rng r, final int m) {
        if (m < 3) {
            return LSPECIAL[r.nextInt(LSPECIAL.length)];
        }
        return m < 6 ? r.nextInt(200) - 100 : r.nextLong();
    }

    private static String str(final Rng r) {
        final int n = 1 + r.nextInt(4);
        final StringBuilder sb = new StringBuilder();
        for (int i = 0; i < n; i++) {
            sb.append((char) (r.nextInt(8) == 0 ? r.nextInt(0xd000) : "aAbBzZ09 _".charAt(r.nextInt(10))));
        }
        return sb.toString();
    }

    /** A unique-ish value derived from a number, for tagging (injective where the type allows). */
    Object tag(final long i) {
        switch (this) {
            case BOOL:
                return (i & 1) == 1;
            case BYTE:
                return (byte) i;
            case SHORT:
                return (short) i;
            case CHAR:
                return (char) i;
            case INT:
                return (int) i;
            case LONG:
                return i * 0x100000001L;
            case FLOAT:
                return (float) (i & 0xffffff);
            case DOUBLE:
                return i + 0.5;
            case STRING:
                return "t" + i;
            default:
                return (i & 1) == 0 ? (Object) ("g" + i) : (Object) Long.valueOf(i);
        }
    }

    /** How keys are derived from small numbers. */
    enum Mode {
        SEQ, NEG, STRIDE, RANDOM, EXTREME
    }

    /** A key without NaN and negative zero; a new object each time for reference types. */
    Object key(final int i, final Mode mode, final long salt) {
        final long n;
        switch (mode) {
            case SEQ:
                n = i;
                break;
            case NEG:
                n = -(long) i;
                break;
            case STRIDE:
                n = this == LONG ? (long) i << 40 : this == INT ? i << 20 | i >>> 12 : (long) i << 5;
                break;
            case EXTREME:
                n = i < LSPECIAL.length ? LSPECIAL[i] : i;
                break;
            default:
                n = Rng.mix(i + salt * 0x9E3779B97F4A7C15L);
        }
        switch (this) {
            case BOOL:
                return (n & 1) != 0;
            case BYTE:
                return (byte) n;
            case SHORT:
                return (short) n;
            case CHAR:
                return (char) n;
            case INT:
                return (int) n;
            case LONG:
                return n;
            case FLOAT:
                {
                    float f =
                            mode == Mode.EXTREME && i < FSPECIAL.length
                                    ? FSPECIAL[i]
                                    : mode == Mode.RANDOM ? Float.intBitsToFloat((int) n) : (float) n;
                    if (Float.isNaN(f) || (f == 0 && 1 / f < 0)) {
                        f = i * 0.25f + 3e9f;
                    }
                    return f;
                }
            case DOUBLE:
                {
                    double d =
                            mode == Mode.EXTREME && i < DSPECIAL.length
                                    ? DSPECIAL[i]
                                    : mode == Mode.RANDOM ? Double.longBitsToDouble(n) : (double) n;
                    if (Double.isNaN(d) || (d == 0 && 1 / d < 0)) {
                        d = i * 0.25 + 3e15;
                    }
                    return d;
                }
            case STRING:
                return strKey(i, mode, n);
            default:
                if (mode == Mode.EXTREME && i == 0) {
                    return null;
                }
                switch (mode == Mode.RANDOM ? (int) (n >>> 62) : mode == Mode.EXTREME ? i & 3 : 2) {
                    case 0:
                        return new Coll(i, i & 1);
                    case 1:
                        return strKey(i, mode, n);
                    case 2:
                        return mode == Mode.STRIDE
                                ? (Object) new Coll(i, 77)
                                : mode == Mode.NEG
                                        ? (Object) Long.valueOf(n)
                                        : mode == Mode.SEQ
                                                ? (Object) new Coll(i, -i)
                                                : (Object) Integer.valueOf((int) n);
                    default:
                        return List.of(Long.valueOf(n), "x");
                }
        }
    }

    private static String strKey(final int i, final Mode mode, final long n) {
        if (mode == Mode.EXTREME) {
            if (i == 0) {
                return null;
            }
            if (i == 1) {
                return new String("");
            }
        }
        if (mode == Mode.STRIDE) { // equal hash codes
            final StringBuilder sb = new StringBuilder();
            for (int b = 0; b < 12; b++) {
                sb.append((i >> b & 1) == 0 ? "Aa" : "BB");
            }
            return i < 4096 ? sb.toString() : sb.append(i).toString();
        }
        return new String("k" + n);
    }

    /** Numeric or lexical order with nulls and NaN last and signed zeros tied. */
    Comparator<Object> asc() {
        switch (this) {
            case BOOL:
                return (a, b) -> a.equals(b) ? 0 : (Boolean) a ? -1 : 1;
            case CHAR:
                return (a, b) -> (char) (Character) a - (char) (Character) b;
            case FLOAT:
            case DOUBLE:
                return (a, b) -> cmpD(((Number) a).doubleValue(), ((Number) b).doubleValue());
            case STRING:
            case GENERIC:
                return T::cmpNullLast;
            default:
                return (a, b) -> Long.compare(((Number) a).longValue(), ((Number) b).longValue());
        }
    }

    @SuppressWarnings({"unchecked", "rawtypes"})
    static int cmpNullLast(final Object a, final Object b) {
        if (a == b) {
            return 0;
        }
        if (a == null) {
            return 1;
        }
        if (b == null) {
            return -1;
        }
        return ((Comparable) a).compareTo(b);
    }

    /** An order which tells more values apart than equality does: by bits or by identity. */
    static int cmpBits(final Object a, final Object b) {
        if (a instanceof Float x && b instanceof Float y) {
            return Integer.compare(Float.floatToRawIntBits(x), Float.floatToRawIntBits(y));
        }
        if (a instanceof Double x && b instanceof Double y) {
            return Long.compare(Double.doubleToRawLongBits(x), Double.doubleToRawLongBits(y));
        }
        return Integer.compare(System.identityHashCode(a), System.identityHashCode(b));
    }

    Comparator<Object> fine() {
        return this == FLOAT || this == DOUBLE || isRef() ? T::cmpBits : asc().reversed();
    }

    static int cmpD(final double a, final double b) {
        if (a < b) {
            return -1;
        }
        if (a > b) {
            return 1;
        }
        if (a == b) {
            return 0;
        }
        return Boolean.compare(Double.isNaN(a), Double.isNaN(b));
    }

    /** Order by absolute value; null when the type has none. */
    Comparator<Object> abs() {
        switch (this) {
            case BOOL:
            case GENERIC:
                return null;
            case STRING:
                return (a, b) -> {
                    if (a == b) {
                        return 0;
                    }
                    if (a == null) {
                        return 1;
                    }
                    if (b == null) {
                        return -1;
                    }
                    return ((String) a).compareToIgnoreCase((String) b);
                };
            case FLOAT:
            case DOUBLE:
                return (a, b) ->
                        cmpD(
                                Math.abs(((Number) a).doubleValue()),
                                Math.abs(((Number) b).doubleValue()));
            case CHAR:
                return asc();
            default:
                return (a, b) -> {
                    final long x = ((Number) a).longValue();
                    final long y = ((Number) b).longValue();
                    return Long.compareUnsigned(x < 0 ? -x : x, y < 0 ? -y : y);
                };
        }
    }

    static String show(final Object o) {
        if (o == null) {
            return "null";
        }
        if (o instanceof String s) {
            return '"' + (s.length() > 40 ? s.substring(0, 40) + "..." : s) + '"';
        }
        if (o instanceof Character c) {
            return "'\\u" + Integer.toHexString(c) + "'";
        }
        if (o instanceof Double || o instanceof Float || o instanceof Number || o instanceof Boolean) {
            return o.toString();
        }
        final String s = String.valueOf(o);
        return s.length() > 60 ? s.substring(0, 60) + "..." : s;
    }
}
