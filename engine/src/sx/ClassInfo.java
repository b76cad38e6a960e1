package sx;

import java.util.ArrayList;
import java.util.HashMap;
import java.util.List;
import java.util.Map;

/** A loaded class, interface or array type. */
final class ClassInfo {
    final String name; // internal name, or a descriptor for arrays and primitives
    final ClassRepo repo;
    int access;
    ClassInfo superClass;
    List<ClassInfo> interfaces = new ArrayList<>();
    ClassInfo elem; // arrays
    char kind; // arrays: first character of the element descriptor; 'L' for everything else
    boolean jdk;
    /** instance fields, those of the super classes first */
    final List<FieldInfo> fields = new ArrayList<>();
    final List<FieldInfo> statics = new ArrayList<>();
    final Map<String, FieldInfo> fieldByName = new HashMap<>();
    final Map<String, MethodInfo> methods = new HashMap<>();
    private final Map<String, MethodInfo> virtualCache = new HashMap<>();
    private final Map<ClassInfo, Boolean> subCache = new HashMap<>();
    int initState; // 0 not yet, 1 running, 2 done
    int staticRef; // the object that holds the static fields
    Lambda lambda; // classes made for lambda expressions
    int serial;

    /** What an object made by an invokedynamic lambda does. */
    static final class Lambda {
        String samName;
        String samDesc;
        int tag;
        String owner;
        String implName;
        String implDesc;
        boolean implItf;
        String instantiated;
        int captured;
    }

    ClassInfo(final ClassRepo repo, final String name) {
        this.repo = repo;
        this.name = name;
    }

    boolean isInterface() {
        return (access & 0x200) != 0;
    }

    boolean isAbstract() {
        return (access & 0x400) != 0;
    }

    boolean isArray() {
        return elem != null || name.length() == 2 && name.charAt(0) == '[';
    }

    FieldInfo findField(final String n) {
        for (ClassInfo c = this; c != null; c = c.superClass) {
            final FieldInfo f = c.fieldByName.get(n);
            if (f != null) {
                return f;
            }
            for (ClassInfo i : c.interfaces) {
                final FieldInfo g = i.findField(n);
                if (g != null) {
                    return g;
                }
            }
        }
        return null;
    }

    /** Method selection for a call on an object of this class, or resolution when this is the named class. */
    MethodInfo findMethod(final String key) {
        MethodInfo m = virtualCache.get(key);
        if (m == null) {
            m = lookup(key);
            if (m != null) {
                virtualCache.put(key, m);
            }
        }
        return m;
    }

    private MethodInfo lookup(final String key) {
        MethodInfo abs = null;
        for (ClassInfo c = this; c != null; c = c.superClass) {
            final MethodInfo m = c.methods.get(key);
            if (m != null) {
                if (!m.isAbstract()) {
                    return m;
                }
                if (abs == null) {
                    abs = m;
                }
            }
        }
        final List<MethodInfo> defaults = new ArrayList<>();
        for (ClassInfo c = this; c != null; c = c.superClass) {
            for (ClassInfo i : c.interfaces) {
                i.collect(key, defaults);
            }
        }
        MethodInfo best = null;
        for (MethodInfo m : defaults) {
            if (m.isAbstract()) {
                if (abs == null) {
                    abs = m;
                }
            } else if (best == null || m.owner.isSubOf(best.owner)) {
                best = m;
            }
        }
        if (best == null && isInterface()) {
            final MethodInfo m = repo.get("java/lang/Object").methods.get(key);
            if (m != null) {
                return m;
            }
        }
        return best != null ? best : abs;
    }

    private void collect(final String key, final List<MethodInfo> out) {
        final MethodInfo m = methods.get(key);
        if (m != null) {
            out.add(m);
        }
        for (ClassInfo i : interfaces) {
            i.collect(key, out);
        }
    }

    boolean isSubOf(final ClassInfo o) {
        if (this == o) {
            return true;
        }
        final Boolean known = subCache.get(o);
        if (known != null) {
            return known;
        }
        boolean r = false;
        if (o.name.equals("java/lang/Object")) {
            r = true;
        } else if (elem != null && o.elem != null) {
            r = elem.isSubOf(o.elem);
        } else if (isArray()) {
            r = o.name.equals("java/lang/Cloneable") || o.name.equals("java/io/Serializable");
        } else {
            for (ClassInfo c = this; c != null && !r; c = c.superClass) {
                if (c == o) {
                    r = true;
                }
                for (ClassInfo i : c.interfaces) {
                    r |= i.isSubOf(o);
                }
            }
        }
        subCache.put(o, r);
        return r;
    }

    String javaName() {
        return name.replace('/', '.');
    }

    @Override
    public String toString() {
        return name;
    }
}

final class FieldInfo {
    final ClassInfo owner;
    final String name;
    final String desc;
    final boolean isStatic;
    final int slot;
    boolean ignored; // left out of the comparison of states
    Object constant;
    boolean isFinal;

    FieldInfo(final ClassInfo owner, final String name, final String desc, final boolean isStatic, final int slot) {
        this.owner = owner;
        this.name = name;
        this.desc = desc;
        this.isStatic = isStatic;
        this.slot = slot;
    }
}

final class MethodInfo {
    final ClassInfo owner;
    final String name;
    final String desc;
    final String key;
    final int access;
    final char[] params; // kinds of the parameters, this excluded
    final String[] paramDescs;
    final char ret;
    final String retDesc;
    org.objectweb.asm.tree.MethodNode node;
    Code code;
    Natives.Nat nat;
    boolean natLooked;
    long calls;

    MethodInfo(final ClassInfo owner, final String name, final String desc, final int access) {
        this.owner = owner;
        this.name = name;
        this.desc = desc;
        this.key = name + desc;
        this.access = access;
        final org.objectweb.asm.Type[] ts = org.objectweb.asm.Type.getArgumentTypes(desc);
        params = new char[ts.length];
        paramDescs = new String[ts.length];
        for (int i = 0; i < ts.length; i++) {
            paramDescs[i] = ts[i].getDescriptor();
            params[i] = paramDescs[i].charAt(0);
        }
        retDesc = desc.substring(desc.indexOf(')') + 1);
        ret = retDesc.charAt(0);
    }

    boolean isStatic() {
        return (access & 8) != 0;
    }

    boolean isAbstract() {
        return (access & 0x400) != 0;
    }

    boolean isNative() {
        return (access & 0x100) != 0;
    }

    boolean isSync() {
        return (access & 0x20) != 0;
    }

    @Override
    public String toString() {
        return owner.name + "." + name + desc;
    }
}

/** Decoded bytecode of one method. */
final class Code {
    int[] op;
    int[] a;
    int[] b;
    Object[] o;
    int[] line;
    int maxLocals;
    int maxStack;
    int[] tryStart;
    int[] tryEnd;
    int[] tryHandler;
    String[] tryType;
}
