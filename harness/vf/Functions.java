package vf;

import java.lang.reflect.Array;
import java.lang.reflect.Field;
import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.Method;
import java.lang.reflect.Modifier;
import java.time.LocalDate;
import java.time.LocalTime;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Date;
import java.util.List;
import java.util.Objects;

/** C28 for the static functions: on many threads at once each call gives what it gives alone. */
final class Functions {
    private Functions() {}

    /** A function, as loaded alone and as loaded with scheduling points. */
    record Fn(String name, Class<?> owner, Method alone, Object aloneOn, Method shared, Object sharedOn) {
    }

    private record Call(Fn f, Object[] args, Object[] after, Object result) {
    }

    private static List<Fn> all;

    private static synchronized List<Fn> functions() throws Exception {
        if (all == null) {
            all = functions(new Yields(Lib.P + "types.", Lib.P + "NumUtils"));
        }
        return all;
    }

    /** All of them, shared as loaded by the given loader. */
    static List<Fn> functions(final ClassLoader yields) throws Exception {
        final List<Fn> out = new ArrayList<>();
        final List<String> names = new ArrayList<>(List.of("types.Pack", "NumUtils"));
        for (T t : T.ALL) {
            names.add("types." + t.lib + "Type");
        }
        for (String n : names) {
            final Class<?> a = Class.forName(Lib.P + n);
            final Class<?> b = Class.forName(Lib.P + n, true, yields);
            for (Method m : a.getDeclaredMethods()) {
                if (Modifier.isPublic(m.getModifiers()) && Modifier.isStatic(m.getModifiers())
                        && !m.isSynthetic() && m.getReturnType() != void.class && usable(m)) {
                    out.add(new Fn(n + "." + m.getName(), a, m, null,
                            b.getDeclaredMethod(m.getName(), m.getParameterTypes()), null));
                }
            }
            for (Field f : a.getDeclaredFields()) { // the comparators, predicates and other functions
                if (Modifier.isPublic(f.getModifiers()) && Modifier.isStatic(f.getModifiers())
                        && f.getType().isInterface() && f.getType().getDeclaringClass() == a) {
                    for (Method m : f.getType().getMethods()) {
                        if (Modifier.isAbstract(m.getModifiers()) && usable(m)) {
                            final Field g = b.getDeclaredField(f.getName());
                            out.add(new Fn(n + "." + f.getName() + "." + m.getName(), a, m, f.get(null),
                                    g.getType().getMethod(m.getName(), m.getParameterTypes()), g.get(null)));
                        }
                    }
                }
            }
        }
        out.sort(java.util.Comparator.comparing((Fn f) -> f.name).thenComparing(f -> f.alone.toString()));
        return out;
    }

    private static boolean usable(final Method m) {
        for (Class<?> p : m.getParameterTypes()) {
            if (!(p.isPrimitive() || p == Object.class || p == String.class || p == byte[].class
                    || p == LocalDate.class || p == LocalTime.class || p == Date.class)) {
                return false;
            }
        }
        return true;
    }

    static Object arg(final Fn f, final Class<?> p, final int i, final Rng r) {
        for (T t : T.ALL) {
            if (p.isPrimitive() && p == t.cls) {
                if (p == int.class && i == 1 && f.alone.getParameterTypes()[0] == byte[].class) {
                    return r.nextInt(9); // a position
                }
                if (p == int.class && f.name.endsWith("toLocalDate")) {
                    return date(r).getYear() * 10000 + r.range(1, 12) * 100 + r.range(1, 28);
                }
                if (p == int.class && f.name.endsWith("toLocalTime")) {
                    return r.nextInt(24) * 10000 + r.nextInt(60) * 100 + r.nextInt(60);
                }
                return t.gen(r);
            }
        }
        if (p == byte[].class) {
            final byte[] b = new byte[16];
            for (int k = 0; k < b.length; k++) {
                b[k] = (byte) r.nextInt(256);
            }
            return b;
        }
        if (p == LocalDate.class) {
            return date(r);
        }
        if (p == LocalTime.class) {
            return LocalTime.ofSecondOfDay(r.nextInt(86400));
        }
        if (p == Date.class) {
            return java.sql.Timestamp.valueOf(date(r).atStartOfDay());
        }
        if (p == String.class && !f.name.startsWith("types.String")) {
            return r.nextInt(3) == 0 ? String.valueOf(r.nextBoolean()) : String.valueOf(r.nextInt(256) - 128);
        }
        if (p == String.class) {
            return T.STRING.gen(r);
        }
        switch (r.nextInt(5)) { // Object
            case 0:
                return String.valueOf(r.nextInt(256) - 128);
            case 1:
                return r.nextBoolean();
            default:
                for (T t : T.ALL) {
                    if (f.name.startsWith("types." + t.lib)) {
                        return t.gen(r);
                    }
                }
                return null;
        }
    }

    private static LocalDate date(final Rng r) {
        return LocalDate.of(1900 + r.nextInt(200), r.range(1, 12), r.range(1, 28));
    }

    static Object run(final Method m, final Object on, final Object[] args) throws Throwable {
        try {
            return m.invoke(on, args);
        } catch (InvocationTargetException e) {
            if (e.getCause() instanceof RuntimeException x) {
                return x.getClass();
            }
            throw e.getCause();
        }
    }

    private static Object[] copy(final Object[] args) {
        final Object[] out = args.clone();
        for (int i = 0; i < out.length; i++) {
            if (out[i] instanceof byte[] b) {
                out[i] = b.clone();
            }
        }
        return out;
    }

    static void family(final Ctx x) throws Throwable {
        final List<Fn> fs = functions();
        for (Fn f : fs) {
            f.alone.setAccessible(true);
            f.shared.setAccessible(true);
        }
        x.serial("functions", x.n(fs.size(), fs.size() * 8), c -> {
            final Rng r = c.r;
            final Fn first = fs.get(c.index % fs.size());
            c.config(first.name);
            final List<Fn> group = new ArrayList<>(); // sometimes with the others of its class
            group.add(first);
            if (c.index >= fs.size() && r.nextBoolean()) {
                for (Fn f : fs) {
                    if (f.owner == first.owner) {
                        group.add(f);
                    }
                }
            }
            final List<Call> calls = new ArrayList<>();
            for (int i = 0; i < 48; i++) {
                final Fn f = group.get(r.nextInt(group.size()));
                final Class<?>[] p = f.alone.getParameterTypes();
                final Object[] args = new Object[p.length];
                for (int k = 0; k < p.length; k++) {
                    args[k] = arg(f, p[k], k, r);
                }
                final Object[] after = copy(args);
                calls.add(new Call(f, args, after, run(f.alone, f.aloneOn, after)));
            }
            x.threads(c, 6, d -> {
                for (int i = 0; i < 200; i++) {
                    final Call q = calls.get(d.r.nextInt(calls.size()));
                    final Object[] args = copy(q.args);
                    if (i < 40) {
                        d.op(q.f.name, args.length > 0 ? args[0] : null, null);
                    }
                    final Object got = run(q.f.shared, q.f.sharedOn, args);
                    d.checks++;
                    if (!same(q.result, got, q.f.name.contains(".read"))) {
                        d.fail(q.f.name + Arrays.deepToString(q.args) + " gives " + T.show(got)
                                + " on several threads, alone " + T.show(q.result));
                    }
                    if (!Arrays.deepEquals(q.after, args)) {
                        d.fail(q.f.name + Arrays.deepToString(q.args) + " leaves " + Arrays.deepToString(args)
                                + " on several threads, alone " + Arrays.deepToString(q.after));
                    }
                }
                d.nontrivial = true;
            });
            c.nontrivial = true;
            c.count("functions on threads");
        });
    }

    /** Payloads of NaN count where bits are read, not where numbers are converted. */
    private static boolean same(final Object a, final Object b, final boolean raw) {
        if (a != null && b != null && a.getClass() != b.getClass()) {
            return false;
        }
        if (a != null && a.getClass().isArray()) {
            for (int i = 0; i < Array.getLength(a); i++) {
                if (!same(Array.get(a, i), Array.get(b, i), raw)) {
                    return false;
                }
            }
            return Array.getLength(a) == Array.getLength(b);
        }
        return raw && (a instanceof Float || a instanceof Double) ? SortChecks.bits(a).equals(SortChecks.bits(b))
                : Objects.equals(a, b);
    }
}
