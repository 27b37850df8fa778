package vf;

import java.lang.invoke.MethodHandles;
import java.lang.invoke.MethodType;
import java.lang.reflect.Constructor;
import java.lang.reflect.Field;
import java.lang.reflect.InaccessibleObjectException;
import java.lang.reflect.Method;
import java.lang.reflect.Modifier;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.List;
import java.util.stream.Collectors;
import java.util.stream.Stream;

/** C34: runs with the library on the module path and the monitors outside of its module. */
final class ModuleChecks {
    private static final List<String> PACKAGES = List.of("", "arrays", "bi", "exception", "functional", "hash",
            "heap", "id", "queue", "sort", "store", "types", "vector");

    private ModuleChecks() {}

    static void register() {
        Main.CHECKS.put("C34", ModuleChecks::c34);
    }

    /** What a call from another module cannot do, and code on the class path can. */
    private static void inaccessible(final Case c, final Throwable t) throws Throwable {
        for (Throwable e = t; e != null; e = e.getCause()) {
            if (e instanceof IllegalAccessException
                    || e instanceof IllegalAccessError
                    || e instanceof InaccessibleObjectException) {
                throw new Violation("not usable from another module: " + e.getMessage(), e);
            }
        }
        throw t;
    }

    /** The class as an outside caller names it: a public class, if nested in public classes only. */
    private static boolean isPublic(final Class<?> k) {
        for (Class<?> e = k; e != null; e = e.getEnclosingClass()) {
            if (!Modifier.isPublic(e.getModifiers())) {
                return false;
            }
        }
        return !k.isAnonymousClass() && !k.isLocalClass() && !k.isSynthetic();
    }

    private static void reach(final Case c, final String name) throws Throwable {
        final Class<?> k = Class.forName(name, false, Lib.loader);
        c.config(name);
        if (!isPublic(k)) {
            c.count("classes not public");
            return;
        }
        final MethodHandles.Lookup l = MethodHandles.publicLookup();
        final String what = k.getName();
        try {
            l.accessClass(k);
            c.checks++;
            for (final Constructor<?> m : k.getConstructors()) {
                c.op("constructor", m.toGenericString());
                if (!Modifier.isAbstract(k.getModifiers())) {
                    l.unreflectConstructor(m);
                }
                types(c, l, m.getParameterTypes());
                c.checks++;
            }
            for (final Method m : k.getMethods()) {
                if (m.getDeclaringClass() == Object.class || m.isSynthetic()) {
                    continue;
                }
                c.op("method", m.toGenericString());
                final MethodType t = MethodType.methodType(m.getReturnType(), m.getParameterTypes());
                if (Modifier.isStatic(m.getModifiers())) {
                    if (!k.isInterface() || m.getDeclaringClass() == k) {
                        l.findStatic(k, m.getName(), t);
                    }
                } else {
                    l.findVirtual(k, m.getName(), t);
                }
                types(c, l, m.getReturnType());
                types(c, l, m.getParameterTypes());
                types(c, l, m.getExceptionTypes());
                c.checks++;
            }
            for (final Field f : k.getFields()) {
                c.op("field", f.toGenericString());
                if (Modifier.isStatic(f.getModifiers())) {
                    l.findStaticGetter(k, f.getName(), f.getType()).invoke();
                    c.count("constants read");
                } else {
                    l.findGetter(k, f.getName(), f.getType());
                }
                types(c, l, f.getType());
                c.checks++;
            }
        } catch (IllegalAccessException e) {
            throw new Violation(what + " is not usable from another module: " + e.getMessage(), e);
        }
        c.nontrivial = true;
        c.count("public classes");
    }

    private static void types(final Case c, final MethodHandles.Lookup l, final Class<?>... ts)
            throws IllegalAccessException {
        for (Class<?> t : ts) {
            while (t.isArray()) {
                t = t.getComponentType();
            }
            if (!t.isPrimitive() && isPublic(t)) {
                l.accessClass(t);
                c.checks++;
            }
        }
    }

    private static int c34(final Ctx x) throws Throwable {
        x.rule = "A case is one public class with all its public members looked up and its constants read,"
                + " or a group of instances used in turns, with the library on the module path and the"
                + " caller in another module; non-trivial if the class is public or at least one"
                + " instance was used.";
        x.assume("the module is named com.bytefacets.collections");
        if (!Class.forName(Lib.P + "NumUtils", false, Lib.loader).getModule().isNamed()) {
            throw new IllegalStateException("the library is not on the module path");
        }
        final List<String> names = new ArrayList<>();
        final Path dir = Path.of(System.getProperty("vf.module"));
        for (final String p : PACKAGES) {
            try (Stream<Path> s = Files.list(dir.resolve("com/bytefacets/collections").resolve(p))) {
                names.addAll(s.filter(f -> f.toString().endsWith(".class"))
                        .map(f -> dir.relativize(f).toString().replace(".class", "").replace('/', '.'))
                        .filter(n -> !n.endsWith("-info"))
                        .sorted()
                        .collect(Collectors.toList()));
            }
        }
        x.parallel("reach", names.size(), c -> reach(c, names.get(c.index)));
        x.parallel("use", x.n(3000, 60000), c -> {
            try {
                final CrossChecks.Actor[] a = CrossChecks.group(c, 1 + c.r.nextInt(3));
                final int steps = 60 + c.r.nextInt(200);
                for (int i = 0; i < steps; i++) {
                    a[c.r.nextInt(a.length)].step();
                }
                for (CrossChecks.Actor o : a) {
                    o.verify();
                }
            } catch (Violation e) {
                throw e;
            } catch (Throwable t) {
                inaccessible(c, t);
            }
            c.nontrivial = true;
            c.count("groups used");
        });
        x.parallel("types", x.n(200, 2000), c -> {
            final T t = T.ALL[c.index % 10];
            c.config(t.name());
            try {
                typeUse(c, t);
            } catch (Violation e) {
                throw e;
            } catch (Throwable e) {
                inaccessible(c, e);
            }
            c.nontrivial = true;
        });
        return x.finish("public classes", "constants read", "groups used", "types used", "identifiers made");
    }

    private static void typeUse(final Case c, final T t) throws Throwable {
        final Class<?> k = Lib.typeClass(t);
        c.op("convert null");
        c.eq(t.def(), Lib.m(k, "convert", Object.class).invoke((Object) null), "convert(null)");
        c.count("types used");
        final long now = System.currentTimeMillis();
        final var s = com.bytefacets.collections.id.Snowflake.snowflake(() -> now, () -> "node");
        long last = -1;
        for (int i = 0; i < 50; i++) {
            c.op("id");
            final long id = s.nextId();
            c.check(id > last, "id " + id + " after " + last);
            last = id;
        }
        c.count("identifiers made");
    }
}
