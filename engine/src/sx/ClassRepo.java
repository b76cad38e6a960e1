package sx;

import java.io.IOException;
import java.io.InputStream;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.concurrent.ConcurrentHashMap;
import org.objectweb.asm.ClassReader;
import org.objectweb.asm.Label;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.tree.AbstractInsnNode;
import org.objectweb.asm.tree.ClassNode;
import org.objectweb.asm.tree.FieldInsnNode;
import org.objectweb.asm.tree.FieldNode;
import org.objectweb.asm.tree.IincInsnNode;
import org.objectweb.asm.tree.InsnList;
import org.objectweb.asm.tree.IntInsnNode;
import org.objectweb.asm.tree.InvokeDynamicInsnNode;
import org.objectweb.asm.tree.JumpInsnNode;
import org.objectweb.asm.tree.LabelNode;
import org.objectweb.asm.tree.LdcInsnNode;
import org.objectweb.asm.tree.LineNumberNode;
import org.objectweb.asm.tree.LookupSwitchInsnNode;
import org.objectweb.asm.tree.MethodInsnNode;
import org.objectweb.asm.tree.MethodNode;
import org.objectweb.asm.tree.MultiANewArrayInsnNode;
import org.objectweb.asm.tree.TableSwitchInsnNode;
import org.objectweb.asm.tree.TryCatchBlockNode;
import org.objectweb.asm.tree.TypeInsnNode;
import org.objectweb.asm.tree.VarInsnNode;

/** Loads classes from the compiled output and from the JDK. */
final class ClassRepo {
    private static final Map<String, ClassNode> PARSED = new ConcurrentHashMap<>();
    private final List<Path> path;
    private final Map<String, ClassInfo> classes = new HashMap<>();
    private final Set<String> ignoredFields;
    private int serial;

    ClassRepo(final List<Path> path, final Set<String> ignoredFields) {
        this.path = path;
        this.ignoredFields = ignoredFields;
    }

    static final class Switch {
        int[] keys;
        int[] targets;
        int dflt;
    }

    ClassInfo get(final String name) {
        ClassInfo c = classes.get(name);
        if (c == null) {
            c = load(name);
        }
        return c;
    }

    /** By descriptor: Lx; and [x become classes and arrays. */
    ClassInfo byDesc(final String d) {
        return d.charAt(0) == 'L' ? get(d.substring(1, d.length() - 1)) : get(d);
    }

    ClassInfo arrayOf(final ClassInfo elem) {
        return get("[" + (elem.name.charAt(0) == '[' || elem.kind != 'L' ? elem.name : "L" + elem.name + ";"));
    }

    ClassInfo synthetic(final String name, final ClassInfo itf, final ClassInfo.Lambda l) {
        final ClassInfo c = new ClassInfo(this, name);
        c.serial = ++serial;
        c.kind = 'L';
        c.superClass = get("java/lang/Object");
        c.interfaces.add(itf);
        c.initState = 2;
        c.lambda = l;
        classes.put(name, c);
        return c;
    }

    private ClassInfo load(final String name) {
        final ClassInfo c = new ClassInfo(this, name);
        c.serial = ++serial;
        if (name.length() == 1 && "ZBCSIJFDV".indexOf(name.charAt(0)) >= 0) {
            c.kind = name.charAt(0);
            c.jdk = true;
            c.initState = 2;
            classes.put(name, c);
            return c;
        }
        if (name.charAt(0) == '[') {
            classes.put(name, c);
            c.kind = name.charAt(1);
            c.jdk = true;
            c.initState = 2;
            c.superClass = get("java/lang/Object");
            if (c.kind == 'L' || c.kind == '[') {
                c.elem = byDesc(name.substring(1));
                c.jdk = c.elem.jdk;
            }
            return c;
        }
        final ClassNode n = parse(name, c);
        if (n == null) {
            throw new Unsupported("class not found: " + name);
        }
        classes.put(name, c);
        c.kind = 'L';
        c.access = n.access;
        if (n.superName != null) {
            c.superClass = get(n.superName);
            c.fields.addAll(c.superClass.fields);
        }
        for (String i : n.interfaces) {
            c.interfaces.add(get(i));
        }
        for (FieldNode f : n.fields) {
            final boolean st = (f.access & Opcodes.ACC_STATIC) != 0;
            final FieldInfo fi = new FieldInfo(c, f.name, f.desc, st, st ? c.statics.size() : c.fields.size());
            fi.constant = f.value;
            fi.isFinal = (f.access & Opcodes.ACC_FINAL) != 0;
            fi.ignored = ignoredFields.contains(f.name) && f.desc.length() == 1;
            (st ? c.statics : c.fields).add(fi);
            c.fieldByName.put(f.name, fi);
        }
        for (MethodNode m : n.methods) {
            final MethodInfo mi = new MethodInfo(c, m.name, m.desc, m.access);
            mi.node = m;
            c.methods.put(mi.key, mi);
        }
        return c;
    }

    private ClassNode parse(final String name, final ClassInfo c) {
        c.jdk = false;
        for (Path p : path) {
            final Path f = p.resolve(name + ".class");
            if (Files.exists(f)) {
                final String id = f.toString();
                return PARSED.computeIfAbsent(id, k -> {
                    try {
                        return read(Files.readAllBytes(f));
                    } catch (IOException e) {
                        throw new IllegalStateException(e);
                    }
                });
            }
        }
        c.jdk = true;
        final ClassNode known = PARSED.get(name);
        if (known != null) {
            return known;
        }
        try (InputStream in = ClassLoader.getSystemResourceAsStream(name + ".class")) {
            if (in == null) {
                return null;
            }
            final ClassNode n = read(in.readAllBytes());
            PARSED.put(name, n);
            return n;
        } catch (IOException e) {
            throw new IllegalStateException(e);
        }
    }

    private static ClassNode read(final byte[] bytes) {
        final ClassNode n = new ClassNode();
        new ClassReader(bytes).accept(n, ClassReader.SKIP_FRAMES);
        for (MethodNode m : n.methods) {
            for (AbstractInsnNode i : m.instructions) {
                if (i instanceof InvokeDynamicInsnNode
                        && ((InvokeDynamicInsnNode) i).bsm.getOwner().equals("java/lang/runtime/ObjectMethods")) {
                    recordMethod(n.name, m, ((InvokeDynamicInsnNode) i).bsmArgs);
                    break;
                }
            }
        }
        return n;
    }

    /** Spells out what the run time would generate for equals, hashCode and toString of a record. */
    private static void recordMethod(final String owner, final MethodNode m, final Object[] args) {
        m.instructions.clear();
        m.tryCatchBlocks.clear();
        m.visitVarInsn(Opcodes.ALOAD, 0);
        if (m.name.equals("toString")) {
            m.visitMethodInsn(Opcodes.INVOKESTATIC, "java/lang/String", "valueOf", "(Ljava/lang/Object;)Ljava/lang/String;", false);
            m.visitInsn(Opcodes.ARETURN);
            m.visitMaxs(1, 1);
            return;
        }
        final boolean hash = m.name.equals("hashCode");
        final Label no = new Label();
        m.visitInsn(Opcodes.POP);
        if (hash) {
            m.visitInsn(Opcodes.ICONST_0);
        } else {
            m.visitVarInsn(Opcodes.ALOAD, 1);
            m.visitTypeInsn(Opcodes.INSTANCEOF, owner);
            m.visitJumpInsn(Opcodes.IFEQ, no);
        }
        for (int k = 2; k < args.length; k++) {
            final org.objectweb.asm.Handle h = (org.objectweb.asm.Handle) args[k];
            final char d = h.getDesc().charAt(0);
            final boolean prim = d != 'L' && d != '[';
            final String box = "java/lang/" + switch (d) {
                case 'Z' -> "Boolean";
                case 'B' -> "Byte";
                case 'C' -> "Character";
                case 'S' -> "Short";
                case 'I' -> "Integer";
                case 'J' -> "Long";
                case 'F' -> "Float";
                case 'D' -> "Double";
                default -> "Object";
            };
            if (hash) {
                m.visitIntInsn(Opcodes.BIPUSH, 31);
                m.visitInsn(Opcodes.IMUL);
            }
            m.visitVarInsn(Opcodes.ALOAD, 0);
            m.visitFieldInsn(Opcodes.GETFIELD, owner, h.getName(), h.getDesc());
            if (hash) {
                if (prim) {
                    m.visitMethodInsn(Opcodes.INVOKESTATIC, box, "hashCode", "(" + d + ")I", false);
                } else {
                    m.visitMethodInsn(Opcodes.INVOKESTATIC, "java/util/Objects", "hashCode", "(Ljava/lang/Object;)I", false);
                }
                m.visitInsn(Opcodes.IADD);
                continue;
            }
            m.visitVarInsn(Opcodes.ALOAD, 1);
            m.visitFieldInsn(Opcodes.GETFIELD, owner, h.getName(), h.getDesc());
            if (prim) {
                m.visitMethodInsn(Opcodes.INVOKESTATIC, box, "compare", "(" + d + d + ")I", false);
                m.visitJumpInsn(Opcodes.IFNE, no);
            } else {
                m.visitMethodInsn(Opcodes.INVOKESTATIC, "java/util/Objects", "equals", "(Ljava/lang/Object;Ljava/lang/Object;)Z", false);
                m.visitJumpInsn(Opcodes.IFEQ, no);
            }
        }
        if (!hash) {
            m.visitInsn(Opcodes.ICONST_1);
            m.visitInsn(Opcodes.IRETURN);
            m.visitLabel(no);
            m.visitInsn(Opcodes.ICONST_0);
        }
        m.visitInsn(Opcodes.IRETURN);
        m.visitMaxs(6, 2);
    }

    static Code decode(final MethodInfo m) {
        final MethodNode n = m.node;
        synchronized (n) {
            return decode0(n);
        }
    }

    private static Code decode0(final MethodNode n) {
        final InsnList l = n.instructions;
        final Map<Label, Integer> at = new HashMap<>();
        int k = 0;
        for (AbstractInsnNode i = l.getFirst(); i != null; i = i.getNext()) {
            if (i instanceof LabelNode) {
                at.put(((LabelNode) i).getLabel(), k);
            } else if (i.getOpcode() >= 0) {
                k++;
            }
        }
        final Code c = new Code();
        c.op = new int[k];
        c.a = new int[k];
        c.b = new int[k];
        c.o = new Object[k];
        c.line = new int[k];
        c.maxLocals = n.maxLocals;
        c.maxStack = n.maxStack;
        k = 0;
        int line = 0;
        for (AbstractInsnNode i = l.getFirst(); i != null; i = i.getNext()) {
            if (i instanceof LineNumberNode) {
                line = ((LineNumberNode) i).line;
            }
            if (i.getOpcode() < 0) {
                continue;
            }
            c.op[k] = i.getOpcode();
            c.line[k] = line;
            if (i instanceof VarInsnNode) {
                c.a[k] = ((VarInsnNode) i).var;
            } else if (i instanceof IntInsnNode) {
                c.a[k] = ((IntInsnNode) i).operand;
            } else if (i instanceof IincInsnNode) {
                c.a[k] = ((IincInsnNode) i).var;
                c.b[k] = ((IincInsnNode) i).incr;
            } else if (i instanceof JumpInsnNode) {
                c.a[k] = at.get(((JumpInsnNode) i).label.getLabel());
            } else if (i instanceof LdcInsnNode) {
                c.o[k] = ((LdcInsnNode) i).cst;
            } else if (i instanceof TypeInsnNode) {
                c.o[k] = ((TypeInsnNode) i).desc;
            } else if (i instanceof FieldInsnNode || i instanceof MethodInsnNode || i instanceof InvokeDynamicInsnNode) {
                c.o[k] = i;
                if (i instanceof MethodInsnNode) {
                    int args = org.objectweb.asm.Type.getArgumentTypes(((MethodInsnNode) i).desc).length;
                    c.a[k] = args;
                }
            } else if (i instanceof MultiANewArrayInsnNode) {
                c.o[k] = ((MultiANewArrayInsnNode) i).desc;
                c.a[k] = ((MultiANewArrayInsnNode) i).dims;
            } else if (i instanceof TableSwitchInsnNode) {
                final TableSwitchInsnNode t = (TableSwitchInsnNode) i;
                final Switch s = new Switch();
                s.keys = new int[t.labels.size()];
                s.targets = new int[t.labels.size()];
                for (int j = 0; j < s.keys.length; j++) {
                    s.keys[j] = t.min + j;
                    s.targets[j] = at.get(t.labels.get(j).getLabel());
                }
                s.dflt = at.get(t.dflt.getLabel());
                c.o[k] = s;
            } else if (i instanceof LookupSwitchInsnNode) {
                final LookupSwitchInsnNode t = (LookupSwitchInsnNode) i;
                final Switch s = new Switch();
                s.keys = new int[t.labels.size()];
                s.targets = new int[t.labels.size()];
                for (int j = 0; j < s.keys.length; j++) {
                    s.keys[j] = t.keys.get(j);
                    s.targets[j] = at.get(t.labels.get(j).getLabel());
                }
                s.dflt = at.get(t.dflt.getLabel());
                c.o[k] = s;
            }
            k++;
        }
        final int tc = n.tryCatchBlocks.size();
        c.tryStart = new int[tc];
        c.tryEnd = new int[tc];
        c.tryHandler = new int[tc];
        c.tryType = new String[tc];
        for (int i = 0; i < tc; i++) {
            final TryCatchBlockNode t = n.tryCatchBlocks.get(i);
            c.tryStart[i] = at.get(t.start.getLabel());
            c.tryEnd[i] = at.get(t.end.getLabel());
            c.tryHandler[i] = at.get(t.handler.getLabel());
            c.tryType[i] = t.type;
        }
        return c;
    }
}
