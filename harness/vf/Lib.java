package vf;

import java.lang.invoke.MethodHandle;
import java.lang.invoke.MethodHandles;
import java.lang.invoke.MethodType;
import java.lang.reflect.InvocationHandler;
import java.lang.reflect.Method;
import java.lang.reflect.Modifier;
import java.lang.reflect.Proxy;
import java.util.concurrent.ConcurrentHashMap;
import java.util.function.BiFunction;
import java.util.function.Consumer;
import java.util.function.Function;

/** Access to the library under test through its public API only, with everything boxed. */
final class Lib {
    static final String P = "com.bytefacets.collections.";
    private static final MethodHandles.Lookup L = MethodHandles.publicLookup();
    private static final ConcurrentHashMap<String, Object> CACHE = new ConcurrentHashMap<>();
    static volatile ClassLoader loader = Lib.class.getClassLoader();

    private Lib() {}

    /** Called at the start of every consumer, comparator, hash and equality call, if set. */
    interface Body {
        void run() throws Throwable;
    }

    /** Runs a body where checked exceptions cannot be declared. */
    @SuppressWarnings("unchecked")
    static <X extends Throwable> void quietly(final Body body) throws X {
        try {
            body.run();
        } catch (Throwable t) {
            throw (X) t;
        }
    }

    interface Hook {
        void called(boolean consumer);
    }

    static volatile boolean hooks;
    static final ThreadLocal<Hook> HOOK = new ThreadLocal<>();

    static void called(final boolean consumer) {
        if (hooks) {
            final Hook h = HOOK.get();
            if (h != null) {
                h.called(consumer);
            }
        }
    }

    static Class<?> cls(final String name) {
        try {
            return Class.forName(P + name, true, loader);
        } catch (ClassNotFoundException e) {
            throw new IllegalStateException(e);
        }
    }

    @SuppressWarnings("unchecked")
    static <A> A cached(final String key, final Function<String, A> f) {
        Object o = CACHE.get(key);
        if (o == null) {
            o = f.apply(key);
            final Object old = CACHE.putIfAbsent(key, o);
            if (old != null) {
                o = old;
            }
        }
        return (A) o;
    }

    private static MethodHandle generic(final MethodHandle h) {
        return h.asFixedArity().asType(MethodType.genericMethodType(h.type().parameterCount()));
    }

    /** A public instance or static method by name and number of parameters, fully boxed. */
    static MethodHandle m(final Class<?> c, final String name, final int params) {
        final MethodHandle h = opt(c, name, params);
        if (h == null) {
            throw new IllegalStateException("no method " + c + "." + name + "/" + params);
        }
        return h;
    }

    static MethodHandle opt(final Class<?> c, final String name, final int params) {
        Method best = null;
        for (Method m : c.getMethods()) {
            if (m.getName().equals(name) && m.getParameterCount() == params) {
                if (best == null
                        || (best.isBridge() && !m.isBridge() && m.getDeclaringClass() == c)) {
                    best = m;
                }
            }
        }
        return best == null ? null : un(c, best);
    }

    /** By exact parameter types. */
    static MethodHandle m(final Class<?> c, final String name, final Class<?>... types) {
        try {
            return un(c, c.getMethod(name, types));
        } catch (NoSuchMethodException e) {
            throw new IllegalStateException(e);
        }
    }

    private static MethodHandle un(final Class<?> c, final Method m) {
        try {
            if (Modifier.isPublic(c.getModifiers())) { // as a caller in another package would link it
                final MethodType type = MethodType.methodType(m.getReturnType(), m.getParameterTypes());
                return generic(Modifier.isStatic(m.getModifiers())
                        ? L.findStatic(c, m.getName(), type)
                        : L.findVirtual(c, m.getName(), type));
            }
            m.setAccessible(true);
            return generic(L.unreflect(m));
        } catch (ReflectiveOperationException e) {
            throw new IllegalStateException(e);
        }
    }

    static MethodHandle ctor(final Class<?> c, final Class<?>... types) {
        try {
            return generic(L.findConstructor(c, MethodType.methodType(void.class, types)));
        } catch (ReflectiveOperationException e) {
            throw new IllegalStateException(e);
        }
    }

    static Object constant(final Class<?> c, final String name) {
        try {
            return c.getField(name).get(null);
        } catch (ReflectiveOperationException e) {
            throw new IllegalStateException(e);
        }
    }

    static Class<?> typeClass(final T t) {
        return cls("types." + t.lib + "Type");
    }

    private static Object proxy(final Class<?> itf, final Function<Object[], Object> f) {
        final InvocationHandler h =
                (p, m, args) -> {
                    if (m.getDeclaringClass() == Object.class) {
                        switch (m.getName()) {
                            case "hashCode":
                                return System.identityHashCode(p);
                            case "equals":
                                return p == args[0];
                            default:
                                return "proxy of " + itf.getName();
                        }
                    }
                    if (m.isDefault()) {
                        return InvocationHandler.invokeDefault(p, m, args);
                    }
                    return f.apply(args);
                };
        return Proxy.newProxyInstance(itf.getClassLoader(), new Class<?>[] {itf}, h);
    }

    /** functional.[T]Consumer */
    static Object consumer(final T t, final Consumer<Object> f) {
        if (t == T.INT) {
            return intConsumer(f);
        }
        return proxy(cls("functional." + t.lib + "Consumer"), a -> {
            called(true);
            f.accept(a[0]);
            return null;
        });
    }

    static Object intConsumer(final Consumer<Object> f) {
        return (com.bytefacets.collections.functional.IntConsumer)
                a -> {
                    called(true);
                    f.accept(a);
                };
    }

    /** types.[T]Type.Cmp */
    static Object cmp(final T t, final java.util.Comparator<Object> g) {
        final java.util.Comparator<Object> f = (a, b) -> {
            called(false);
            return g.compare(a, b);
        };
        switch (t) {
            case INT:
                return (com.bytefacets.collections.types.IntType.Cmp) (a, b) -> f.compare(a, b);
            case LONG:
                return (com.bytefacets.collections.types.LongType.Cmp) (a, b) -> f.compare(a, b);
            case STRING:
                return (com.bytefacets.collections.types.StringType.Cmp) (a, b) -> f.compare(a, b);
            case GENERIC:
                return (com.bytefacets.collections.types.GenericType.Cmp) (a, b) -> f.compare(a, b);
            case DOUBLE:
                return (com.bytefacets.collections.types.DoubleType.Cmp) (a, b) -> f.compare(a, b);
            case FLOAT:
                return (com.bytefacets.collections.types.FloatType.Cmp) (a, b) -> f.compare(a, b);
            case BYTE:
                return (com.bytefacets.collections.types.ByteType.Cmp) (a, b) -> f.compare(a, b);
            case SHORT:
                return (com.bytefacets.collections.types.ShortType.Cmp) (a, b) -> f.compare(a, b);
            case CHAR:
                return (com.bytefacets.collections.types.CharType.Cmp) (a, b) -> f.compare(a, b);
            default:
                return (com.bytefacets.collections.types.BoolType.Cmp) (a, b) -> f.compare(a, b);
        }
    }

    static Object hash(final T t, final Function<Object, Integer> f) {
        return proxy(cls("types." + t.lib + "Type$Hash"), a -> {
            called(false);
            return f.apply(a[0]);
        });
    }

    static Object eq(final T t, final BiFunction<Object, Object, Boolean> f) {
        return proxy(cls("types." + t.lib + "Type$Eq"), a -> {
            called(false);
            return f.apply(a[0], a[1]);
        });
    }

    /** Handles of an EntryIterator. */
    static final class EntryIt {
        static final Class<?> C = cls("EntryIterator");
        static final MethodHandle NEXT = m(C, "next", 0);
        static final MethodHandle CURRENT = m(C, "currentEntry", 0);
        static final MethodHandle REMOVE = m(C, "remove", 0);
        static final MethodHandle RESET = m(C, "reset", 0);

        static boolean next(final Object it) throws Throwable {
            return (Boolean) (Object) NEXT.invokeExact(it);
        }

        static int current(final Object it) throws Throwable {
            return (Integer) (Object) CURRENT.invokeExact(it);
        }

        static void remove(final Object it) throws Throwable {
            final Object x = REMOVE.invokeExact(it);
        }

        static void reset(final Object it) throws Throwable {
            final Object x = RESET.invokeExact(it);
        }
    }

    /** Handles of the functional.[T]Iterator. */
    static final class It {
        final MethodHandle hasNext;
        final MethodHandle next;
        final MethodHandle forEach;
        final T t;

        private It(final T t) {
            this.t = t;
            final Class<?> c = cls("functional." + t.lib + "Iterator");
            hasNext = m(c, "hasNext", 0);
            next = m(c, "next", 0);
            forEach = m(c, "forEach", 1);
        }

        static It of(final T t) {
            return cached("It" + t, k -> new It(t));
        }

        boolean hasNext(final Object it) throws Throwable {
            return (Boolean) (Object) hasNext.invokeExact(it);
        }

        Object next(final Object it) throws Throwable {
            return (Object) next.invokeExact(it);
        }

        void forEach(final Object it, final Consumer<Object> f) throws Throwable {
            final Object x = forEach.invokeExact(it, consumer(t, f));
        }
    }
}
