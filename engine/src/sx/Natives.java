package sx;

import java.util.ArrayDeque;
import java.util.Arrays;
import java.util.HashMap;
import java.util.HashSet;
import java.util.Map;
import java.util.Set;
import org.objectweb.asm.Type;

/** Methods with an encoding of their own: natives of the JDK, formatting, and the harness interface. */
final class Natives {
    interface Nat {
        Object call(Object[] a);
    }

    /** A frame was pushed (or the thread blocked); there is no result yet. */
    static final Object CALLED = new Object();
    /** The stand-in has no short form for these arguments: the real method is to be executed. */
    static final Object NOT_HANDLED = new Object();

    /** Marks an array whose order does not matter. */
    static final Object BAG = new Object();

    private final Interp in;
    private final TF tf;
    private final Map<String, Nat> nats = new HashMap<>();
    int iteArrays;
    /** native methods and stubs met in a run, for the evidence */
    final Set<String> stubs = new HashSet<>();

    Natives(final Interp in) {
        this.in = in;
        this.tf = in.tf;
        jdk();
        sym();
    }

    boolean skipInit(final String cls) {
        return cls.equals("java/lang/Class") || cls.equals("java/lang/System")
                || cls.equals("java/lang/Thread") || cls.equals("java/lang/invoke/MethodHandles")
                || cls.equals("java/lang/invoke/MethodHandles$Lookup")
                || cls.startsWith("java/util/concurrent/atomic/Atomic") || cls.startsWith("java/util/concurrent/locks/")
                || cls.equals("java/lang/StringBuilder") || cls.equals("java/lang/Integer$IntegerCache")
                || cls.equals("java/lang/Math$RandomNumberGeneratorHolder") || cls.equals("java/lang/StringCoding")
                || cls.equals("java/time/chrono/AbstractChronology") || cls.equals("java/util/Random")
                || cls.equals("java/security/SecureRandom") || cls.equals("java/security/Provider") || cls.equals("java/security/Security")
                || cls.equals("java/lang/ClassLoader") || cls.equals("java/util/Locale");
    }

    void afterInit(final ClassInfo c) {
    }

    Nat find(final MethodInfo m) {
        Nat n = nats.get(m.owner.name + "." + m.name + m.desc);
        if (n == null) {
            n = nats.get(m.owner.name + "." + m.name);
        }
        if (n == null && m.owner.jdk && (m.owner.name.equals("java/lang/StringBuilder")
                || m.owner.name.equals("java/lang/StringBuffer") || m.owner.name.equals("java/lang/AbstractStringBuilder"))) {
            n = builder(m);
        }
        if (n == null && m.name.equals("registerNatives")) {
            n = a -> null;
        }
        return n;
    }

    /** String builders hold a text as long as every part of it is known, and are opaque after that. */
    private Nat builder(final MethodInfo m) {
        switch (m.name) {
            case "<init>":
                return a -> {
                    final boolean empty = m.paramDescs.length == 0 || m.paramDescs[0].equals("I");
                    in.s.mut((Integer) a[0]).payload = empty ? "" : in.known(a[1], m.paramDescs[0]);
                    return null;
                };
            case "toString":
                return a -> obj(a[0]).payload instanceof String ? in.string((String) obj(a[0]).payload) : in.opaque();
            case "append":
                return a -> {
                    final Object was = obj(a[0]).payload;
                    final Object more = m.paramDescs.length == 1 ? in.known(a[1], m.paramDescs[0]) : Interp.OPAQUE;
                    in.s.mut((Integer) a[0]).payload = was instanceof String && more instanceof String
                            ? (String) was + (String) more : Interp.OPAQUE;
                    return a[0];
                };
            case "insert", "reverse", "appendCodePoint", "delete", "deleteCharAt", "replace":
                return a -> {
                    in.s.mut((Integer) a[0]).payload = Interp.OPAQUE;
                    return a[0];
                };
            case "setLength":
                return a -> {
                    final T n = (T) a[1];
                    in.s.mut((Integer) a[0]).payload = n.isConst() && n.v == 0 ? "" : Interp.OPAQUE;
                    return null;
                };
            case "length", "isEmpty":
                return a -> {
                    if (!(obj(a[0]).payload instanceof String)) {
                        throw new Unsupported("string builder: " + m.name);
                    }
                    final int n = ((String) obj(a[0]).payload).length();
                    return tf.i32(m.name.equals("length") ? n : n == 0 ? 1 : 0);
                };
            default:
                return a -> {
                    throw new Unsupported("string builder: " + m.name);
                };
        }
    }

    private void on(final String key, final Nat n) {
        nats.put(key, n);
    }

    private HObj obj(final Object ref) {
        if ((Integer) ref == 0) {
            throw in.npe();
        }
        return in.s.get((Integer) ref);
    }

    private T bool(final T c) {
        return tf.ite(c, tf.I1, tf.I0);
    }

    private Object getF(final Object ref, final String name) {
        final HObj o = obj(ref);
        return o.f[o.cls.findField(name).slot];
    }

    private void setF(final Object ref, final String name, final Object v) {
        final HObj o = obj(ref);
        in.s.mut((Integer) ref).f[o.cls.findField(name).slot] = v;
    }

    private interface Fn1 {
        double f(double x);
    }

    private void math(final String name, final Fn1 fn) {
        for (String c : new String[] {"java/lang/Math.", "java/lang/StrictMath."}) {
            on(c + name + "(D)D", a -> {
                final T x = (T) a[0];
                if (!x.isConst()) {
                    if (name.equals("ceil") || name.equals("floor")) {
                        return tf.conv(name.equals("ceil") ? T.CEIL : T.FLOOR, x);
                    }
                    throw new Unsupported("Math." + name + " of a symbolic value");
                }
                return tf.i64(Double.doubleToRawLongBits(fn.f(Double.longBitsToDouble(x.v))));
            });
        }
    }

    private void jdk() {
        on("java/lang/Object.getClass", a -> in.mirror(obj(a[0]).cls));
        // any number would do; tables of the library that are keyed by such objects are only looked up
        final Nat identity = a -> {
            final ClassInfo c = obj(a[0]).cls;
            if (in.initialising() || c.isSubOf(in.repo.get("java/lang/Enum"))) {
                return tf.i32((Integer) a[0] * 31 + 17);
            }
            throw new Unsupported("identity hash code");
        };
        on("java/lang/Object.hashCode", identity);
        on("java/lang/System.identityHashCode", identity);
        on("java/lang/Object.clone", a -> {
            final HObj o = obj(a[0]);
            return in.s.alloc(o.copy(in.s.owner));
        });
        on("java/lang/Object.notify", a -> null);
        on("java/lang/Object.notifyAll", a -> null);
        on("java/lang/System.arraycopy", this::arraycopy);
        on("java/lang/System.getProperty", a -> 0);
        on("jdk/internal/access/SharedSecrets.getJavaLangAccess", a -> in.newObject(in.repo.get("java/lang/System$2")));
        on("java/lang/Class.getModifiers", a -> tf.i32(((ClassInfo) obj(a[0]).payload).access & 0x7fff));
        on("java/lang/Class.getSuperclass", a -> {
            final ClassInfo c = ((ClassInfo) obj(a[0]).payload).superClass;
            return c == null ? (Object) 0 : in.mirror(c);
        });
        on("java/lang/Class.getEnumConstantsShared", a -> {
            final ClassInfo c = (ClassInfo) obj(a[0]).payload;
            in.init(c);
            in.push(c.findMethod("values()[L" + c.name + ";"), new Object[0]);
            return CALLED;
        });
        on("jdk/internal/reflect/Reflection.getCallerClass", a -> in.mirror(in.repo.get("java/lang/Object")));
        on("java/lang/System.nanoTime", a -> tf.i64(0));
        unsafe();
        on("java/lang/System.getenv", a -> 0);
        on("java/lang/System.getSecurityManager", a -> 0);
        on("java/lang/Runtime.availableProcessors", a -> tf.i32(8));
        on("java/lang/StringUTF16.isBigEndian", a -> tf.I0);
        on("java/lang/System.lineSeparator", a -> in.literal("\n"));
        on("jdk/internal/misc/VM.getSavedProperty", a -> 0);
        on("jdk/internal/misc/VM.initialize", a -> null);
        on("jdk/internal/misc/VM.initializeFromArchive", a -> null);
        on("jdk/internal/misc/CDS.initializeFromArchive", a -> null);
        on("jdk/internal/misc/CDS.isDumpingClassList0", a -> tf.I0);
        on("jdk/internal/misc/CDS.isDumpingArchive0", a -> tf.I0);
        on("jdk/internal/misc/CDS.isSharingEnabled0", a -> tf.I0);
        on("jdk/internal/misc/CDS.getRandomSeedForDumping", a -> tf.i64(0));
        on("java/util/ImmutableCollections.<clinit>", a -> null);
        on("java/security/AccessController.doPrivileged", a -> {
            final HObj o = obj(a[0]);
            final MethodInfo m = o.cls.findMethod("run()Ljava/lang/Object;");
            in.push(m, new Object[] {a[0]});
            return CALLED;
        });
        on("java/lang/reflect/Array.newInstance(Ljava/lang/Class;I)Ljava/lang/Object;", a -> {
            final ClassInfo c = (ClassInfo) obj(a[0]).payload;
            return in.newArray(in.repo.arrayOf(c), (T) a[1]);
        });
        on("java/lang/Class.getComponentType", a -> {
            final ClassInfo c = (ClassInfo) obj(a[0]).payload;
            if (!c.isArray()) {
                return 0;
            }
            return in.mirror(c.elem != null ? c.elem : in.repo.get(c.name.substring(1)));
        });
        on("java/lang/Class.isArray", a -> tf.i32(((ClassInfo) obj(a[0]).payload).isArray() ? 1 : 0));
        on("java/lang/Class.isInterface", a -> tf.i32(((ClassInfo) obj(a[0]).payload).isInterface() ? 1 : 0));
        on("java/lang/Class.isPrimitive", a -> tf.i32(((ClassInfo) obj(a[0]).payload).name.length() == 1 ? 1 : 0));
        on("java/lang/Class.desiredAssertionStatus", a -> tf.I0);
        on("java/lang/Class.getPrimitiveClass", a -> in.mirror(in.repo.get(switch (in.text((Integer) a[0])) {
            case "boolean" -> "Z";
            case "byte" -> "B";
            case "char" -> "C";
            case "short" -> "S";
            case "int" -> "I";
            case "long" -> "J";
            case "float" -> "F";
            case "double" -> "D";
            default -> "V";
        })));
        on("java/lang/Class.getName", a -> in.literal(((ClassInfo) obj(a[0]).payload).javaName()));
        on("java/lang/Class.getSimpleName", a -> {
            final String n = ((ClassInfo) obj(a[0]).payload).javaName();
            return in.literal(n.substring(Math.max(n.lastIndexOf('.'), n.lastIndexOf('$')) + 1));
        });
        on("java/lang/Class.toString", a -> in.opaque());
        on("java/lang/Class.hashCode", a -> tf.i32(((ClassInfo) obj(a[0]).payload).serial));
        on("java/lang/Class.isInstance", a -> tf.i32((Integer) a[1] != 0
                && obj(a[1]).cls.isSubOf((ClassInfo) obj(a[0]).payload) ? 1 : 0));
        on("java/lang/Class.isAssignableFrom", a -> tf.i32(
                ((ClassInfo) obj(a[1]).payload).isSubOf((ClassInfo) obj(a[0]).payload) ? 1 : 0));
        on("java/lang/Throwable.fillInStackTrace", a -> a[0]);
        on("java/lang/Throwable.printStackTrace", a -> null);
        on("java/lang/Throwable.addSuppressed", a -> null);
        on("java/lang/Throwable.<init>()V", a -> null);
        on("java/lang/Throwable.<init>(Ljava/lang/String;)V", a -> {
            setF(a[0], "detailMessage", a[1]);
            return null;
        });
        on("java/lang/Throwable.<init>(Ljava/lang/String;Ljava/lang/Throwable;)V", a -> {
            setF(a[0], "detailMessage", a[1]);
            setF(a[0], "cause", a[2]);
            return null;
        });
        on("java/lang/Throwable.<init>(Ljava/lang/Throwable;)V", a -> {
            setF(a[0], "cause", a[1]);
            return null;
        });
        for (String k : new String[] {"java/lang/Float.floatToRawIntBits", "java/lang/Float.intBitsToFloat",
            "java/lang/Double.doubleToRawLongBits", "java/lang/Double.longBitsToDouble"}) {
            on(k, a -> a[0]);
        }
        on("java/lang/Float.isNaN(F)Z", a -> bool(tf.not(tf.fcmp(T.FEQ, (T) a[0], (T) a[0]))));
        on("java/lang/Double.isNaN(D)Z", a -> bool(tf.not(tf.fcmp(T.FEQ, (T) a[0], (T) a[0]))));
        on("java/lang/Float.floatToIntBits", a -> tf.ite(tf.fcmp(T.FEQ, (T) a[0], (T) a[0]), (T) a[0], tf.i32(0x7fc00000)));
        on("java/lang/Double.doubleToLongBits", a -> tf.ite(tf.fcmp(T.FEQ, (T) a[0], (T) a[0]), (T) a[0],
                tf.i64(0x7ff8000000000000L)));
        math("sqrt", Math::sqrt);
        math("log", Math::log);
        math("log10", Math::log10);
        math("exp", Math::exp);
        math("ceil", Math::ceil);
        math("floor", Math::floor);
        math("rint", Math::rint);
        for (String c : new String[] {"java/lang/Math.", "java/lang/StrictMath."}) {
            on(c + "pow(DD)D", a -> {
                if (!((T) a[0]).isConst() || !((T) a[1]).isConst()) {
                    throw new Unsupported("Math.pow of a symbolic value");
                }
                return tf.i64(Double.doubleToRawLongBits(Math.pow(Double.longBitsToDouble(((T) a[0]).v),
                        Double.longBitsToDouble(((T) a[1]).v))));
            });
        }
        // the digits among the Latin-1 characters: 0-9, a-z and A-Z
        on("java/lang/CharacterDataLatin1.digit(II)I", a -> {
            final T ch = (T) a[1];
            final T radix = (T) a[2];
            if (ch.isConst() || !radix.isConst() || radix.v < 2 || radix.v > 36) {
                return NOT_HANDLED;
            }
            final int r = (int) radix.v;
            T v = tf.i32(-1);
            for (int base : new int[] {'0', 'a', 'A'}) {
                final int first = base == '0' ? 0 : 10;
                final int count = Math.min(base == '0' ? 10 : 26, r - first);
                if (count > 0) {
                    final T inside = tf.and(tf.cmp(T.SLE, tf.i32(base), ch), tf.cmp(T.SLE, ch, tf.i32(base + count - 1)));
                    v = tf.ite(inside, tf.bin(T.ADD, ch, tf.i32(first - base)), v);
                }
            }
            return v;
        });
        // branch-free forms of the usual helpers
        for (String c : new String[] {"java/lang/Math.", "java/lang/StrictMath."}) {
            for (String d : new String[] {"(II)I", "(JJ)J"}) {
                on(c + "min" + d, a -> tf.ite(tf.cmp(T.SLE, (T) a[0], (T) a[1]), (T) a[0], (T) a[1]));
                on(c + "max" + d, a -> tf.ite(tf.cmp(T.SLE, (T) a[1], (T) a[0]), (T) a[0], (T) a[1]));
            }
            for (String d : new String[] {"(II)I", "(JJ)J", "(JI)I"}) {
                on(c + "floorMod" + d, a -> {
                    final T x = (T) a[0];
                    final T y = (T) a[1];
                    if (!y.isConst() || y.v <= 0 || (y.v & (y.v - 1)) != 0) {
                        return NOT_HANDLED;
                    }
                    final T m = tf.bin(T.AND, x, tf.c(x.w, y.v - 1));
                    return d.equals("(JI)I") ? tf.l2i(m) : m;
                });
            }
            on(c + "abs(I)I", a -> tf.ite(tf.cmp(T.SLT, (T) a[0], tf.I0), tf.bin(T.SUB, tf.I0, (T) a[0]), (T) a[0]));
            on(c + "abs(J)J", a -> tf.ite(tf.cmp(T.SLT, (T) a[0], tf.i64(0)), tf.bin(T.SUB, tf.i64(0), (T) a[0]), (T) a[0]));
            on(c + "abs(F)F", a -> tf.bin(T.AND, (T) a[0], tf.i32(Integer.MAX_VALUE)));
            on(c + "abs(D)D", a -> tf.bin(T.AND, (T) a[0], tf.i64(Long.MAX_VALUE)));
        }
        final Nat cmp = a -> tf.ite(tf.cmp(T.SLT, (T) a[0], (T) a[1]), tf.i32(-1),
                tf.ite(tf.eq((T) a[0], (T) a[1]), tf.I0, tf.I1));
        on("java/lang/Integer.compare(II)I", cmp);
        on("java/lang/Long.compare(JJ)I", cmp);
        on("java/lang/Float.compare(FF)I", a -> fcompare((T) a[0], (T) a[1]));
        on("java/lang/Double.compare(DD)I", a -> fcompare((T) a[0], (T) a[1]));
        on("java/lang/Integer.numberOfLeadingZeros(I)I", a -> nlz((T) a[0]));
        on("java/lang/Long.numberOfLeadingZeros(J)I", a -> nlz((T) a[0]));
        for (String[] b : new String[][] {{"Byte", "B"}, {"Short", "S"}, {"Character", "C"}, {"Integer", "I"}, {"Long", "J"}}) {
            on("java/lang/" + b[0] + ".valueOf(" + b[1] + ")Ljava/lang/" + b[0] + ";", a -> in.box(b[1].charAt(0), (T) a[0]));
        }
        strings();
        on("jdk/internal/util/ArraysSupport.vectorizedMismatch", a -> tf.bin(T.XOR, (T) a[5 - 1], tf.i32(-1)));
        for (String d : new String[] {"Z", "B", "C", "S", "I", "J", "F", "D", "Ljava/lang/Object;"}) {
            on("java/util/Arrays.fill([" + d + d + ")V", a -> {
                final HObj o = obj(a[0]);
                fill((Integer) a[0], tf.I0, in.len(o), a[1]);
                return null;
            });
            on("java/util/Arrays.fill([" + d + "II" + d + ")V", a -> {
                final HObj o = obj(a[0]);
                final T from = (T) a[1];
                final T to = (T) a[2];
                if (in.decide(tf.cmp(T.SLT, to, from))) {
                    throw in.vmThrow("java/lang/IllegalArgumentException", null);
                }
                if (in.decide(tf.or(tf.cmp(T.SLT, from, tf.I0), tf.cmp(T.SLT, in.len(o), to)))) {
                    throw in.vmThrow("java/lang/ArrayIndexOutOfBoundsException", null);
                }
                fill((Integer) a[0], from, to, a[3]);
                return null;
            });
        }
        atomics();
        on("java/security/SecureRandom.<init>", a -> null);
        on("java/lang/Thread.yield", a -> null);
        on("java/lang/Thread.onSpinWait", a -> null);
        on("java/lang/Thread.sleep", a -> null);
        on("java/util/Objects.requireNonNull(Ljava/lang/Object;Ljava/lang/String;)Ljava/lang/Object;", a -> {
            if ((Integer) a[0] == 0) {
                throw in.npe();
            }
            return a[0];
        });
    }

    private void redirect(final String key, final String lib) {
        on(key, a -> {
            final ClassInfo c = in.repo.get("sx/Lib");
            for (MethodInfo m : c.methods.values()) {
                if (m.name.equals(lib)) {
                    in.push(m, a);
                    return CALLED;
                }
            }
            throw new IllegalStateException(lib);
        });
    }

    private void unsafe() {
        for (String k : new String[] {"Long", "Int", "Short", "Char"}) {
            redirect("jdk/internal/misc/ScopedMemoryAccess.put" + k + "Unaligned", "put" + k);
            redirect("jdk/internal/misc/ScopedMemoryAccess.get" + k + "Unaligned", "get" + k);
        }
        redirect("java/lang/invoke/MethodHandles.byteArrayViewVarHandle", "view");
        final String u = "jdk/internal/misc/Unsafe.";
        on(u + "arrayBaseOffset0", a -> tf.i32(16));
        on(u + "arrayIndexScale0", a -> tf.i32(switch (((ClassInfo) obj(a[1]).payload).name) {
            case "[Z", "[B" -> 1;
            case "[S", "[C" -> 2;
            case "[J", "[D" -> 8;
            default -> 4;
        }));
        on(u + "addressSize0", a -> tf.i32(8));
        on(u + "isBigEndian0", a -> tf.I0);
        on(u + "unalignedAccess0", a -> tf.I1);
        on(u + "storeFence", a -> null);
        on(u + "loadFence", a -> null);
        on(u + "fullFence", a -> null);
        on(u + "ensureClassInitialized", a -> null);
        on(u + "shouldBeInitialized", a -> tf.I0);
        on(u + "objectFieldOffset(Ljava/lang/Class;Ljava/lang/String;)J", a -> tf.i64(
                1000 + ((ClassInfo) obj(a[1]).payload).findField(in.text((Integer) a[2])).slot));
        for (String t : new String[] {"Int", "Long", "Reference"}) {
            for (String mode : new String[] {"", "Volatile", "Acquire", "Opaque"}) {
                on(u + "get" + t + mode, a -> raw(a[1], a[2], null));
            }
            for (String mode : new String[] {"", "Volatile", "Release", "Opaque"}) {
                on(u + "put" + t + mode, a -> {
                    raw(a[1], a[2], a[3]);
                    return null;
                });
            }
            for (String mode : new String[] {"compareAndSet" + t, "weakCompareAndSet" + t, "weakCompareAndSet" + t + "Plain",
                "weakCompareAndSet" + t + "Acquire", "weakCompareAndSet" + t + "Release"}) {
                on(u + mode, a -> {
                    final Object old = raw(a[1], a[2], null);
                    if (old instanceof T ? in.decide(tf.eq((T) old, (T) a[3])) : old.equals(a[3])) {
                        raw(a[1], a[2], a[4]);
                        return tf.I1;
                    }
                    return tf.I0;
                });
            }
        }
    }

    /** A field or an element at a raw address of the engine's making; written when there is a value. */
    private Object raw(final Object ref, final Object off, final Object v) {
        final HObj o = obj(ref);
        final long at = ((T) off).isConst() ? ((T) off).v : -1;
        final int k;
        if (o.isArray()) {
            final int scale = switch (o.cls.name) {
                case "[Z", "[B" -> 1;
                case "[S", "[C" -> 2;
                case "[J", "[D" -> 8;
                default -> 4;
            };
            if (at < 16 || (at - 16) % scale != 0 || (at - 16) / scale >= o.len || o.log != null) {
                throw new Unsupported("raw access to an array");
            }
            k = (int) (at - 16) / scale;
            if (v != null) {
                in.s.mut((Integer) ref).setElem(k, v);
                return null;
            }
            return o.elem(k);
        }
        if (at < 1000 || at - 1000 >= o.f.length) {
            throw new Unsupported("raw access to an object");
        }
        k = (int) at - 1000;
        if (v != null) {
            in.s.mut((Integer) ref).f[k] = v;
            return null;
        }
        return o.f[k];
    }

    private Object fcompare(final T a, final T b) {
        // the total order of Double.compare, without forks: NaN is greatest and equal to itself, -0.0 < 0.0
        final T an = tf.not(tf.fcmp(T.FEQ, a, a));
        final T bn = tf.not(tf.fcmp(T.FEQ, b, b));
        final T zero = tf.c(a.w, 0);
        final T byBits = tf.ite(tf.cmp(T.SLT, a, zero), tf.ite(tf.cmp(T.SLT, b, zero), tf.I0, tf.i32(-1)),
                tf.ite(tf.cmp(T.SLT, b, zero), tf.I1, tf.I0));
        return tf.ite(tf.fcmp(T.FLT, a, b), tf.i32(-1), tf.ite(tf.fcmp(T.FLT, b, a), tf.I1,
                tf.ite(an, tf.ite(bn, tf.I0, tf.I1), tf.ite(bn, tf.i32(-1), byBits))));
    }

    private Object nlz(final T x) {
        T r = tf.i32(x.w);
        for (int bit = 0; bit < x.w; bit++) {
            // the highest set bit decides, so it is tested last (outermost)
            final T m = tf.c(x.w, bit == x.w - 1 ? x.w == 32 ? Integer.MIN_VALUE : Long.MIN_VALUE : 1L << bit);
            r = tf.ite(tf.eq(tf.bin(T.AND, x, m), tf.c(x.w, 0)), r, tf.i32(x.w - 1 - bit));
        }
        return r;
    }

    private void fill(final int ref, final T from, final T to, final Object v0) {
        final HObj o = in.s.get(ref);
        Object v = v0;
        if (v instanceof T) {
            switch (o.cls.kind) {
                case 'B' -> v = tf.sx(8, (T) v);
                case 'S' -> v = tf.sx(16, (T) v);
                case 'C' -> v = tf.bin(T.AND, (T) v, tf.i32(0xffff));
                case 'Z' -> v = tf.bin(T.AND, (T) v, tf.I1);
                default -> { }
            }
        }
        if (o.f == null && from.isConst() && from.v == 0 && to == in.len(o)) {
            final HObj w = in.s.mut(ref);
            w.sparse.clear();
            w.log = null;
            w.dflt = v;
            return;
        }
        if (o.log != null) {
            throw new Unsupported("filling part of an array that was written at symbolic indexes");
        }
        final int lo = (int) in.concrete(from);
        final int hi = (int) in.concrete(to);
        if (o.f == null && hi - lo > 100_000) {
            throw new Unsupported("filling part of a huge array");
        }
        if (hi > lo) {
            final HObj w = in.s.mut(ref);
            for (int i = lo; i < hi; i++) {
                w.setElem(i, v);
            }
        }
    }

    private Object arraycopy(final Object[] a) {
        final HObj src = obj(a[0]);
        final HObj dst = obj(a[2]);
        final T sp = (T) a[1];
        final T dp = (T) a[3];
        final T n = (T) a[4];
        if (src.log != null || dst.log != null) {
            throw new Unsupported("copying an array that was written at symbolic indexes");
        }
        if (!src.isArray() || !dst.isArray() || src.cls.kind != dst.cls.kind && (src.cls.elem == null || dst.cls.elem == null)) {
            throw in.vmThrow("java/lang/ArrayStoreException", null);
        }
        final T bad = tf.or(tf.or(tf.cmp(T.SLT, sp, tf.I0), tf.cmp(T.SLT, dp, tf.I0)), tf.or(tf.cmp(T.SLT, n, tf.I0),
                tf.or(tf.cmp(T.SLT, tf.i2l(in.len(src)), tf.bin(T.ADD, tf.i2l(sp), tf.i2l(n))),
                        tf.cmp(T.SLT, tf.i2l(in.len(dst)), tf.bin(T.ADD, tf.i2l(dp), tf.i2l(n))))));
        if (in.decide(bad)) {
            throw in.vmThrow("java/lang/ArrayIndexOutOfBoundsException", null);
        }
        if (src.f == null && sp.isConst() && sp.v == 0 && dp.isConst() && dp.v == 0 && n == in.len(src)
                && (dst.f == null || src.sparse.isEmpty() && src.dflt == dst.dflt)) {
            // a whole array kept sparsely: into a larger one, the rest of which must look the same
            if (dst.f == null && dst.sparse.isEmpty() && dst.dflt == src.dflt) {
                final HObj w = in.s.mut((Integer) a[2]);
                w.sparse.putAll(src.sparse);
                return null;
            }
        }
        final int from = (int) in.concrete(sp);
        final int to = (int) in.concrete(dp);
        final int k = (int) in.concrete(n);
        if (k == 0) {
            return null;
        }
        if (src.f == null && k > 100_000 && dst.f == null) {
            final HObj w = in.s.mut((Integer) a[2]);
            if (!w.sparse.isEmpty() || src.dflt != w.dflt) {
                throw new Unsupported("copying part of a huge array");
            }
            for (Map.Entry<Integer, Object> e : src.sparse.entrySet()) {
                if (e.getKey() >= from && e.getKey() < from + k) {
                    w.sparse.put(e.getKey() - from + to, e.getValue());
                }
            }
            return null;
        }
        final Object[] tmp = new Object[k];
        for (int i = 0; i < k; i++) {
            tmp[i] = src.elem(from + i);
        }
        if (dst.cls.elem != null && !src.cls.isSubOf(dst.cls)) {
            for (Object r : tmp) {
                if ((Integer) r != 0 && !in.s.get((Integer) r).cls.isSubOf(dst.cls.elem)) {
                    throw in.vmThrow("java/lang/ArrayStoreException", null);
                }
            }
        }
        final HObj w = in.s.mut((Integer) a[2]);
        for (int i = 0; i < k; i++) {
            w.setElem(to + i, tmp[i]);
        }
        return null;
    }

    private HObj bytes(final Object str) {
        final HObj o = obj(str);
        if (o.payload == Interp.OPAQUE) {
            throw new Unsupported("the characters of a message are used");
        }
        return in.s.get((Integer) o.f[o.cls.findField("value").slot]);
    }

    /** The order of two Latin-1 strings of known lengths, branch-free. */
    private T latinOrder(final Object x, final Object y, final boolean insensitive) {
        final HObj a = obj(x);
        final HObj b = obj(y);
        T r = tf.i32(a.len - b.len);
        for (int i = Math.min(a.len, b.len) - 1; i >= 0; i--) {
            T c = tf.bin(T.AND, (T) a.f[i], tf.i32(0xff));
            T d = tf.bin(T.AND, (T) b.f[i], tf.i32(0xff));
            if (insensitive) {
                c = fold(c);
                d = fold(d);
            }
            r = tf.ite(tf.eq(c, d), r, tf.bin(T.SUB, c, d));
        }
        return r;
    }

    /** What the JDK compares when it ignores case, for a Latin-1 character, as runs of characters shifted alike. */
    private T fold(final T c) {
        return mapped(c, x -> Character.toLowerCase(Character.toUpperCase((char) x)));
    }

    private T lower(final T c) {
        return mapped(c, x -> Character.toLowerCase((char) x));
    }

    private T mapped(final T c, final java.util.function.IntUnaryOperator f) {
        T r = null;
        for (int hi = 255; hi >= 0;) {
            final int delta = f.applyAsInt(hi) - hi;
            int lo = hi;
            while (lo > 0 && f.applyAsInt(lo - 1) - (lo - 1) == delta) {
                lo--;
            }
            final T v = tf.bin(T.ADD, c, tf.i32(delta));
            r = r == null ? v : tf.ite(tf.cmp(T.SLE, c, tf.i32(hi)), v, r);
            hi = lo - 1;
        }
        return r;
    }

    private void strings() {
        on("java/lang/StringLatin1.compareTo([B[B)I", a -> latinOrder(a[0], a[1], false));
        on("java/lang/StringLatin1.compareToCI([B[B)I", a -> latinOrder(a[0], a[1], true));
        on("java/lang/String.format(Ljava/lang/String;[Ljava/lang/Object;)Ljava/lang/String;", a -> {
            final HObj args = obj(a[1]);
            final String format = in.text((Integer) a[0]);
            if (format == null || args.log != null) {
                return in.opaque();
            }
            final Object[] v = new Object[args.len];
            for (int i = 0; i < args.len; i++) {
                final int r = (Integer) args.elem(i);
                if (r == 0) {
                    continue;
                }
                final HObj o = in.s.get(r);
                final Object t = o.cls.name.equals("java/lang/String") ? in.text(r) : o.cls.findField("value") == null ? null
                        : o.f[o.cls.findField("value").slot];
                if (t instanceof String) {
                    v[i] = t;
                } else if (t instanceof T && ((T) t).isConst()) {
                    final long x = ((T) t).v;
                    v[i] = switch (o.cls.name) {
                        case "java/lang/Integer" -> (int) x;
                        case "java/lang/Long" -> x;
                        case "java/lang/Short" -> (short) x;
                        case "java/lang/Byte" -> (byte) x;
                        case "java/lang/Character" -> (char) x;
                        case "java/lang/Boolean" -> x == 1;
                        case "java/lang/Float" -> Float.intBitsToFloat((int) x);
                        case "java/lang/Double" -> Double.longBitsToDouble(x);
                        default -> null;
                    };
                }
                if (v[i] == null) {
                    return in.opaque();
                }
            }
            try {
                return in.string(String.format(format, v));
            } catch (java.util.IllegalFormatException e) {
                throw in.vmThrow(e.getClass().getName().replace('.', '/'), null);
            }
        });
        on("java/lang/String.format", a -> in.opaque());
        for (String k : new String[] {"toLowerCase", "toUpperCase"}) {
            final boolean lower = k.equals("toLowerCase");
            final Nat n = a -> {
                final String t = in.text((Integer) a[0]);
                if (t != null) {
                    return in.string(lower ? t.toLowerCase(java.util.Locale.ROOT) : t.toUpperCase(java.util.Locale.ROOT));
                }
                final HObj b = bytes(a[0]);
                if (!lower || ((T) getF(a[0], "coder")).v != 0) {
                    throw new Unsupported("upper case of unknown characters");
                }
                final Object[] v = new Object[b.len];
                for (int i = 0; i < b.len; i++) {
                    v[i] = tf.sx(8, lower(tf.bin(T.AND, (T) b.f[i], tf.i32(0xff))));
                }
                return in.stringOf(v, 0, null);
            };
            on("java/lang/String." + k + "()Ljava/lang/String;", n);
            on("java/lang/String." + k + "(Ljava/util/Locale;)Ljava/lang/String;", n);
        }
        on("java/lang/String.formatted", a -> in.opaque());
        on("java/lang/String.intern", a -> a[0]);
        on("java/lang/String.equals", a -> {
            if (a[0].equals(a[1])) {
                return tf.I1;
            }
            if ((Integer) a[1] == 0 || obj(a[1]).cls != obj(a[0]).cls) {
                return tf.I0;
            }
            final HObj x = bytes(a[0]);
            final HObj y = bytes(a[1]);
            if (x.len != y.len || getF(a[0], "coder") != getF(a[1], "coder")) {
                return tf.I0;
            }
            T r = tf.TRUE;
            for (int i = 0; i < x.len; i++) {
                r = tf.and(r, tf.eq((T) x.f[i], (T) y.f[i]));
            }
            return bool(r);
        });
        on("java/lang/String.hashCode", a -> {
            final HObj x = bytes(a[0]);
            final boolean latin = ((T) getF(a[0], "coder")).v == 0;
            T h = tf.I0;
            for (int i = 0; i < x.len; i += latin ? 1 : 2) {
                T c = tf.bin(T.AND, (T) x.f[i], tf.i32(0xff));
                if (!latin) {
                    c = tf.bin(T.OR, c, tf.bin(T.SHL, tf.bin(T.AND, (T) x.f[i + 1], tf.i32(0xff)), tf.i32(8)));
                }
                h = tf.bin(T.ADD, tf.bin(T.MUL, h, tf.i32(31)), c);
            }
            return h;
        });
        on("java/lang/String.valueOf(Ljava/lang/Object;)Ljava/lang/String;", a -> {
            if ((Integer) a[0] != 0 && in.s.get((Integer) a[0]).cls.name.equals("java/lang/String")) {
                return a[0];
            }
            return in.opaque();
        });
        for (String k : new String[] {"Integer.toString(I)", "Long.toString(J)", "String.valueOf(I)", "String.valueOf(J)"}) {
            on("java/lang/" + k + "Ljava/lang/String;", a -> ((T) a[0]).isConst() ? in.string(Long.toString(((T) a[0]).v)) : in.opaque());
        }
    }

    private void atomics() {
        for (String w : new String[] {"Long", "Integer"}) {
            final String c = "java/util/concurrent/atomic/Atomic" + w + ".";
            final boolean l = w.equals("Long");
            final T one = l ? tf.i64(1) : tf.I1;
            on(c + "get", a -> getF(a[0], "value"));
            on(c + "set", a -> {
                setF(a[0], "value", a[1]);
                return null;
            });
            on(c + "lazySet", nats.get(c + "set"));
            on(c + "getAndSet", a -> upd(a[0], (T) a[1], false));
            on(c + "incrementAndGet", a -> upd(a[0], tf.bin(T.ADD, (T) getF(a[0], "value"), one), true));
            on(c + "decrementAndGet", a -> upd(a[0], tf.bin(T.SUB, (T) getF(a[0], "value"), one), true));
            on(c + "getAndIncrement", a -> upd(a[0], tf.bin(T.ADD, (T) getF(a[0], "value"), one), false));
            on(c + "getAndDecrement", a -> upd(a[0], tf.bin(T.SUB, (T) getF(a[0], "value"), one), false));
            on(c + "addAndGet", a -> upd(a[0], tf.bin(T.ADD, (T) getF(a[0], "value"), (T) a[1]), true));
            on(c + "getAndAdd", a -> upd(a[0], tf.bin(T.ADD, (T) getF(a[0], "value"), (T) a[1]), false));
            final Nat cas = a -> {
                if (in.decide(tf.eq((T) getF(a[0], "value"), (T) a[1]))) {
                    setF(a[0], "value", a[2]);
                    return tf.I1;
                }
                return tf.I0;
            };
            on(c + "compareAndSet", cas);
            on(c + "weakCompareAndSet", cas);
            on(c + "weakCompareAndSetPlain", cas);
            on(c + "weakCompareAndSetVolatile", cas);
        }
        final String r = "java/util/concurrent/atomic/AtomicReference.";
        on(r + "get", a -> getF(a[0], "value"));
        on(r + "set", a -> {
            setF(a[0], "value", a[1]);
            return null;
        });
        on(r + "compareAndSet", a -> {
            if (getF(a[0], "value").equals(a[1])) {
                setF(a[0], "value", a[2]);
                return tf.I1;
            }
            return tf.I0;
        });
        on("java/util/concurrent/locks/ReentrantLock.<init>", a -> null);
        on("java/util/concurrent/locks/ReentrantLock.lock", a -> in.enter((Integer) a[0], in.s.thr().top().m.owner) ? null : CALLED);
        on("java/util/concurrent/locks/ReentrantLock.unlock", a -> {
            in.exit((Integer) a[0]);
            return null;
        });
    }

    private Object upd(final Object ref, final T v, final boolean after) {
        final Object old = getF(ref, "value");
        setF(ref, "value", v);
        return after ? v : old;
    }

    int concat(final String recipe, final Object[] bsm, final Type[] ts, final Object[] args) {
        final StringBuilder sb = new StringBuilder();
        int k = 0;
        int c = 1;
        for (int i = 0; i < recipe.length(); i++) {
            final char ch = recipe.charAt(i);
            if (ch == 2) {
                sb.append(bsm[c++]);
            } else if (ch != 1) {
                sb.append(ch);
            } else {
                final Object v = in.known(args[k], ts[k++].getDescriptor());
                if (!(v instanceof String)) {
                    return in.opaque();
                }
                sb.append(v);
            }
        }
        return in.string(sb.toString());
    }

    // ---------------------------------------------------------------- the harness interface

    private void sy(final String name, final Nat n) {
        on("sx/Sym." + name, n);
    }

    private T any(final char kind) {
        final T t = switch (kind) {
            case 'B' -> tf.sx(8, in.fresh(32, kind));
            case 'S' -> tf.sx(16, in.fresh(32, kind));
            case 'C' -> tf.bin(T.AND, in.fresh(32, kind), tf.i32(0xffff));
            case 'Z' -> tf.bin(T.AND, in.fresh(32, kind), tf.I1);
            case 'J', 'D' -> in.fresh(64, kind);
            default -> in.fresh(32, kind);
        };
        in.input(kind, t);
        return t;
    }

    private T cond(final Object a) {
        return tf.not(tf.eq((T) a, tf.I0));
    }

    private void sym() {
        sy("anyBool", a -> any('Z'));
        sy("anyByte", a -> any('B'));
        sy("anyShort", a -> any('S'));
        sy("anyChar", a -> any('C'));
        sy("anyInt", a -> any('I'));
        sy("anyLong", a -> any('J'));
        sy("anyFloat", a -> any('F'));
        sy("anyDouble", a -> any('D'));
        sy("range", a -> {
            final T v;
            if (((T) a[0]).isConst() && ((T) a[1]).isConst() && ((T) a[0]).v <= ((T) a[1]).v
                    && ((T) a[1]).v - ((T) a[0]).v < 1 << 30) {
                // a masked variable, so that the bounds are in the term itself
                final long n = ((T) a[1]).v - ((T) a[0]).v;
                final T x = in.fresh(32, 'I');
                v = tf.bin(T.ADD, tf.bin(T.AND, x, tf.i32(n == 0 ? 0 : (int) (Long.highestOneBit(n) << 1) - 1)), (T) a[0]);
                in.input('I', v);
            } else {
                v = any('I');
            }
            final T ok = tf.and(tf.cmp(T.SLE, (T) a[0], v), tf.cmp(T.SLE, v, (T) a[1]));
            if (!in.assume(ok)) {
                in.outcome = Interp.DEAD;
            }
            return v;
        });
        sy("choose", a -> {
            final int v = in.choose((int) ((T) a[0]).v);
            final T t = tf.i32(v);
            in.input('c', t);
            return t;
        });
        sy("concrete", a -> {
            final int v = (int) in.concrete((T) a[0]);
            return tf.i32(v);
        });
        sy("anyString", a -> {
            final int n = (int) in.concrete((T) a[0]);
            final Object[] v = new Object[n];
            for (int i = 0; i < n; i++) {
                v[i] = any('B');
            }
            return in.stringOf(v, 0, null);
        });
        sy("assume", a -> {
            if (!in.assume(cond(a[0]))) {
                in.outcome = Interp.DEAD;
            }
            return null;
        });
        sy("prune", a -> {
            in.outcome = Interp.DEAD;
            return null;
        });
        sy("check(ZLjava/lang/String;)V", a -> {
            in.check(cond(a[0]), in.text((Integer) a[1]));
            return null;
        });
        final Nat eq = a -> {
            in.check(tf.eq((T) a[0], (T) a[1]), in.text((Integer) a[2]));
            return null;
        };
        sy("checkEq(IILjava/lang/String;)V", eq);
        sy("checkEq(JJLjava/lang/String;)V", eq);
        sy("checkEq(FFLjava/lang/String;)V", eq);
        sy("checkEq(DDLjava/lang/String;)V", eq);
        sy("checkEq(ZZLjava/lang/String;)V", eq);
        sy("checkSame", a -> {
            in.check(tf.bool(a[0].equals(a[1])), in.text((Integer) a[2]));
            return null;
        });
        sy("bag", a -> {
            in.s.mut((Integer) a[0]).payload = BAG;
            return null;
        });
        sy("fail", a -> {
            in.check(tf.FALSE, in.text((Integer) a[0]));
            return null;
        });
        sy("and", a -> tf.bin(T.AND, (T) a[0], (T) a[1]));
        sy("or", a -> tf.bin(T.OR, (T) a[0], (T) a[1]));
        sy("not", a -> tf.bin(T.XOR, (T) a[0], tf.I1));
        sy("cut", a -> {
            in.s.cuts++;
            in.outcome = Interp.CUT;
            return tf.I1;
        });
        sy("param(Ljava/lang/String;I)I", a -> {
            final Object v = in.listener.param(in.text((Integer) a[0]));
            return v == null ? a[1] : tf.i32(((Number) v).intValue());
        });
        sy("param(Ljava/lang/String;Ljava/lang/String;)Ljava/lang/String;", a -> {
            final Object v = in.listener.param(in.text((Integer) a[0]));
            return v == null ? a[1] : (Object) in.literal(v.toString());
        });
        sy("cover", a -> {
            in.listener.cover(in.text((Integer) a[0]));
            return null;
        });
        final Nat obs = a -> {
            in.s.observed = new Rec('o', (T) a[0], 0, in.s.observed);
            return null;
        };
        sy("observe(I)V", obs);
        sy("observe(J)V", obs);
        sy("observe(Z)V", obs);
        sy("symbolic", a -> tf.I1);
        sy("reachable", a -> tf.i32(reachable((Integer) a[0], (Integer) a[1]) ? 1 : 0));
        sy("preemptions", a -> {
            in.s.preemptions = (int) ((T) a[0]).v;
            return null;
        });
        sy("spawn", a -> {
            final State s = in.s;
            final Thr t = new Thr();
            t.starts = true;
            s.threads = Arrays.copyOf(s.threads, s.threads.length + 1);
            s.threads[s.threads.length - 1] = t;
            final int keep = s.cur;
            s.cur = s.threads.length - 1;
            final HObj o = obj(a[0]);
            MethodInfo m = o.cls.findMethod("run()V");
            if (o.cls.lambda != null) {
                throw new Unsupported("spawn takes an object of a named class");
            }
            in.push(m, new Object[] {a[0]});
            s.cur = keep;
            return tf.i32(s.threads.length - 1);
        });
        sy("join", a -> {
            final State s = in.s;
            final int t = (int) ((T) a[0]).v;
            if (s.threads[t].done) {
                in.eventOf(s.cur);
                return null;
            }
            final Frame fr = s.thr().top();
            fr.sp++; // the argument is still there
            s.thr().joinOn = t;
            in.reschedule();
            return CALLED;
        });
    }

    boolean reachable(final int root, final int target) {
        final Set<Integer> seen = new HashSet<>();
        final ArrayDeque<Integer> todo = new ArrayDeque<>();
        if (root != 0) {
            todo.add(root);
            seen.add(root);
        }
        while (!todo.isEmpty()) {
            final int r = todo.poll();
            if (r == target) {
                return true;
            }
            final HObj o = in.s.get(r);
            if (o.cls.name.equals("java/lang/Class")) {
                continue;
            }
            if (o.f != null) {
                for (Object v : o.f) {
                    if (v instanceof Integer && (Integer) v != 0 && seen.add((Integer) v)) {
                        todo.add((Integer) v);
                    }
                }
            } else if (o.log != null) {
                throw new Unsupported("reachability through an array that was written at symbolic indexes");
            } else {
                for (Object v : o.sparse.values()) {
                    if (v instanceof Integer && (Integer) v != 0 && seen.add((Integer) v)) {
                        todo.add((Integer) v);
                    }
                }
            }
        }
        return false;
    }
}
