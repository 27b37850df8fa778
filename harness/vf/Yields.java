package vf;

import java.io.IOException;
import java.io.InputStream;
import java.util.Set;
import java.util.concurrent.ThreadLocalRandom;
import java.util.concurrent.atomic.LongAdder;
import org.objectweb.asm.ClassReader;
import org.objectweb.asm.ClassVisitor;
import org.objectweb.asm.ClassWriter;
import org.objectweb.asm.MethodVisitor;
import org.objectweb.asm.Opcodes;

/**
 * Loads chosen library classes with a scheduling point before every field access, array access, call
 * and monitor operation, so that races with windows of a few instructions are met.
 */
public final class Yields extends ClassLoader {
    static final LongAdder POINTS = new LongAdder();
    static volatile int rate = 6; // of 256
    private final Set<String> prefixes;

    Yields(final String... prefixes) {
        super(Yields.class.getClassLoader());
        this.prefixes = Set.of(prefixes);
    }

    /** Called from the instrumented code. */
    public static void point() {
        final int rate = Yields.rate;
        if (rate == 0) {
            return;
        }
        final ThreadLocalRandom r = ThreadLocalRandom.current();
        final int k = r.nextInt(256);
        if (k >= rate) {
            return;
        }
        POINTS.increment();
        if (k < 4) {
            Thread.yield();
        } else {
            final long until = System.nanoTime() + r.nextInt(20000);
            while (System.nanoTime() < until) {
                Thread.onSpinWait();
            }
        }
    }

    @Override
    protected Class<?> loadClass(final String name, final boolean resolve) throws ClassNotFoundException {
        boolean mine = false;
        for (String p : prefixes) {
            mine |= name.startsWith(p);
        }
        if (!mine) {
            return super.loadClass(name, resolve);
        }
        synchronized (getClassLoadingLock(name)) {
            Class<?> c = findLoadedClass(name);
            if (c == null) {
                final byte[] b;
                try (InputStream in = getParent().getResourceAsStream(name.replace('.', '/') + ".class")) {
                    if (in == null) {
                        throw new ClassNotFoundException(name);
                    }
                    b = instrument(in.readAllBytes());
                } catch (IOException e) {
                    throw new ClassNotFoundException(name, e);
                }
                c = defineClass(name, b, 0, b.length);
            }
            return c;
        }
    }

    private static byte[] instrument(final byte[] code) {
        final ClassReader r = new ClassReader(code);
        final ClassWriter w = new ClassWriter(r, ClassWriter.COMPUTE_MAXS);
        r.accept(new ClassVisitor(Opcodes.ASM9, w) {
            @Override
            public MethodVisitor visitMethod(final int access, final String name, final String desc,
                    final String sig, final String[] ex) {
                final MethodVisitor m = super.visitMethod(access, name, desc, sig, ex);
                return name.equals("<clinit>") || name.equals("<init>") ? m : new Points(m);
            }
        }, 0);
        return w.toByteArray();
    }

    private static final class Points extends MethodVisitor {
        Points(final MethodVisitor m) {
            super(Opcodes.ASM9, m);
        }

        private void at() {
            super.visitMethodInsn(Opcodes.INVOKESTATIC, "vf/Yields", "point", "()V", false);
        }

        @Override
        public void visitCode() {
            super.visitCode();
            at();
        }

        @Override
        public void visitFieldInsn(final int op, final String owner, final String name, final String desc) {
            at();
            super.visitFieldInsn(op, owner, name, desc);
            if (op == Opcodes.PUTFIELD || op == Opcodes.PUTSTATIC) {
                at();
            }
        }

        @Override
        public void visitMethodInsn(final int op, final String owner, final String name,
                final String desc, final boolean itf) {
            at();
            super.visitMethodInsn(op, owner, name, desc, itf);
        }

        @Override
        public void visitInsn(final int op) {
            if ((op >= Opcodes.IALOAD && op <= Opcodes.SALOAD) || (op >= Opcodes.IASTORE && op <= Opcodes.SASTORE)
                    || op == Opcodes.MONITORENTER) {
                at();
            }
            super.visitInsn(op);
            if (op == Opcodes.MONITOREXIT) {
                at();
            }
        }
    }
}
