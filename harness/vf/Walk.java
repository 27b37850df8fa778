package vf;

import java.lang.reflect.Array;
import java.lang.reflect.Field;
import java.lang.reflect.Modifier;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.Map;
import java.util.concurrent.ConcurrentHashMap;

/** What an instance of the library keeps alive: its array slots and the objects stored in them. */
final class Walk {
    private static final ConcurrentHashMap<Class<?>, Field[]> FIELDS = new ConcurrentHashMap<>();
    long slots; // elements of all arrays reachable through the library's own objects
    int arrays;
    int objects; // arrays, the library's own objects and collections of the JDK
    final List<Object> stored = new ArrayList<>(); // objects which are not the library's own
    private final Map<Object, Boolean> seen = new IdentityHashMap<>();
    private final ArrayDeque<Object> todo = new ArrayDeque<>();

    Walk(final Object root) {
        reach(root);
        for (Object o; (o = todo.poll()) != null; ) {
            final Class<?> c = o.getClass();
            if (c.isArray()) {
                final int n = Array.getLength(o);
                slots += n;
                arrays++;
                if (!c.getComponentType().isPrimitive()) {
                    for (Object e : (Object[]) o) {
                        reach(e);
                    }
                }
            } else {
                for (Field f : fields(c)) {
                    try {
                        reach(f.get(o));
                    } catch (IllegalAccessException e) {
                        throw new IllegalStateException(e);
                    }
                }
            }
        }
    }

    private void reach(final Object o) {
        if (o == null || o instanceof Class || o instanceof Enum) {
            return;
        }
        if (seen.put(o, true) != null) {
            return;
        }
        final Class<?> c = o.getClass();
        final String n = c.getName();
        if (c.isArray() || n.startsWith(Lib.P) || n.startsWith("java.util.") && !n.contains("Immutable")
                && fields(c) != null) {
            todo.add(o);
            objects++;
        } else {
            stored.add(o);
        }
    }

    private static Field[] fields(final Class<?> c) {
        final Field[] known = FIELDS.get(c);
        if (known != null) {
            return known;
        }
        final List<Field> l = new ArrayList<>();
        for (Class<?> k = c; k != null && k != Object.class; k = k.getSuperclass()) {
            for (Field f : k.getDeclaredFields()) {
                if (!Modifier.isStatic(f.getModifiers()) && !f.getType().isPrimitive()) {
                    f.setAccessible(true);
                    l.add(f);
                }
            }
        }
        final Field[] r = l.toArray(new Field[0]);
        FIELDS.put(c, r);
        return r;
    }
}
