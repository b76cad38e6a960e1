package sx;

import java.io.IOException;
import java.io.InputStream;
import java.net.URL;
import java.net.URLClassLoader;
import org.objectweb.asm.ClassReader;
import org.objectweb.asm.ClassVisitor;
import org.objectweb.asm.ClassWriter;
import org.objectweb.asm.MethodVisitor;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.Type;

/** Loads the real classes for a replay with several threads: before what other threads can see, it may have to wait. */
final class Conc extends URLClassLoader {
    private Conc(final URL[] urls) {
        super(urls, Replay.class.getClassLoader());
    }

    static ClassLoader loader(final URL[] urls, final Trace t) {
        return t.schedule == null || t.schedule.length == 0 ? new URLClassLoader(urls, Replay.class.getClassLoader()) : new Conc(urls);
    }

    private static boolean shared(final String internal) {
        return !internal.startsWith("h/") && !internal.startsWith("java/") && !internal.startsWith("javax/")
                && !internal.startsWith("jdk/") && !internal.startsWith("sun/") && !internal.startsWith("sx/");
    }

    @Override
    protected Class<?> findClass(final String name) throws ClassNotFoundException {
        final String internal = name.replace('.', '/');
        if (!shared(internal)) {
            return super.findClass(name);
        }
        try (InputStream in = findResource(internal + ".class") == null ? null : findResource(internal + ".class").openStream()) {
            if (in == null) {
                throw new ClassNotFoundException(name);
            }
            final byte[] b = instrument(in.readAllBytes());
            return defineClass(name, b, 0, b.length);
        } catch (IOException e) {
            throw new ClassNotFoundException(name, e);
        }
    }

    private static void point(final MethodVisitor v) {
        v.visitMethodInsn(Opcodes.INVOKESTATIC, "sx/Sym", "point", "()V", false);
    }

    private static byte[] instrument(final byte[] b) {
        final ClassReader r = new ClassReader(b);
        final ClassWriter w = new ClassWriter(ClassWriter.COMPUTE_MAXS);
        final String self = r.getClassName();
        final boolean itf = (r.getAccess() & Opcodes.ACC_INTERFACE) != 0;
        r.accept(new ClassVisitor(Opcodes.ASM9, w) {
            @Override
            public MethodVisitor visitMethod(final int access, final String name, final String desc, final String sig,
                    final String[] ex) {
                String n = name;
                if ((access & Opcodes.ACC_SYNCHRONIZED) != 0) {
                    n = name + "$locked";
                    final boolean st = (access & Opcodes.ACC_STATIC) != 0;
                    final MethodVisitor v = super.visitMethod(access & ~Opcodes.ACC_SYNCHRONIZED, name, desc, sig, ex);
                    v.visitCode();
                    point(v);
                    int at = 0;
                    if (!st) {
                        v.visitVarInsn(Opcodes.ALOAD, at++);
                    }
                    for (Type t : Type.getArgumentTypes(desc)) {
                        v.visitVarInsn(t.getOpcode(Opcodes.ILOAD), at);
                        at += t.getSize();
                    }
                    v.visitMethodInsn(st ? Opcodes.INVOKESTATIC : Opcodes.INVOKESPECIAL, self, n, desc, itf);
                    v.visitInsn(Type.getReturnType(desc).getOpcode(Opcodes.IRETURN));
                    v.visitMaxs(0, 0);
                    v.visitEnd();
                }
                return new MethodVisitor(Opcodes.ASM9, super.visitMethod(access, n, desc, sig, ex)) {
                    @Override
                    public void visitFieldInsn(final int op, final String owner, final String f, final String d) {
                        if (shared(owner)) {
                            point(this);
                        }
                        super.visitFieldInsn(op, owner, f, d);
                    }

                    @Override
                    public void visitInsn(final int op) {
                        if (op == Opcodes.MONITORENTER) {
                            point(this);
                        }
                        super.visitInsn(op);
                    }

                    @Override
                    public void visitMethodInsn(final int op, final String owner, final String m, final String d, final boolean i) {
                        if (owner.startsWith("java/util/concurrent/") && !m.equals("<init>")) {
                            point(mv);
                        }
                        super.visitMethodInsn(op, owner, m, d, i);
                    }
                };
            }
        }, 0);
        return w.toByteArray();
    }
}
