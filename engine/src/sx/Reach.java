package sx;

import java.lang.reflect.Array;
import java.lang.reflect.Field;
import java.lang.reflect.Modifier;
import java.util.ArrayDeque;
import java.util.IdentityHashMap;

/** Reachability on the real heap, by reflection. */
final class Reach {
    private Reach() {}

    static boolean reachable(final Object root, final Object target) {
        final IdentityHashMap<Object, Object> seen = new IdentityHashMap<>();
        final ArrayDeque<Object> todo = new ArrayDeque<>();
        add(root, seen, todo);
        while (!todo.isEmpty()) {
            final Object o = todo.poll();
            if (o == target) {
                return true;
            }
            if (o instanceof Class) {
                continue;
            }
            final Class<?> c = o.getClass();
            if (c.isArray()) {
                if (!c.getComponentType().isPrimitive()) {
                    for (int i = 0; i < Array.getLength(o); i++) {
                        add(Array.get(o, i), seen, todo);
                    }
                }
                continue;
            }
            for (Class<?> k = c; k != null; k = k.getSuperclass()) {
                for (Field f : k.getDeclaredFields()) {
                    if (!Modifier.isStatic(f.getModifiers()) && !f.getType().isPrimitive()) {
                        try {
                            f.setAccessible(true);
                            add(f.get(o), seen, todo);
                        } catch (ReflectiveOperationException | RuntimeException e) {
                            // not visible to the harness either
                        }
                    }
                }
            }
        }
        return false;
    }

    private static void add(final Object o, final IdentityHashMap<Object, Object> seen, final ArrayDeque<Object> todo) {
        if (o != null && seen.put(o, o) == null) {
            todo.add(o);
        }
    }
}
