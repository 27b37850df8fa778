package vf;

import java.io.IOException;
import java.io.InputStream;
import java.util.Arrays;
import java.util.Set;
import org.objectweb.asm.ClassReader;
import org.objectweb.asm.ClassVisitor;
import org.objectweb.asm.ClassWriter;
import org.objectweb.asm.Label;
import org.objectweb.asm.MethodVisitor;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.Type;

/**
 * Loads library classes with a counter of the work they do: calls, branches, array accesses and the
 * lengths of the arrays they allocate, copy and fill, per thread; and a counter of the objects they
 * allocate themselves.
 */
public final class Steps extends ClassLoader {
    private static final ThreadLocal<long[]> COUNT = ThreadLocal.withInitial(() -> new long[2]);
    private final Set<String> prefixes;

    Steps(final String... prefixes) {
        super(Steps.class.getClassLoader());
        this.prefixes = Set.of(prefixes);
    }

    /** Called from the instrumented code. */
    public static void one() {
        COUNT.get()[0]++;
    }

    /** Called from the instrumented code: n elements at once (allocation and copying is cheaper per element). */
    public static void many(final int n) {
        COUNT.get()[0] += Math.max(0, n) >> 1;
    }

    /** Called from the instrumented code where it allocates an object. */
    public static void allocated() {
        COUNT.get()[1]++;
    }

    /** Steps, and objects allocated. */
    static long[] counter() {
        return COUNT.get();
    }

    private static String part(final String desc) {
        return desc.substring(1, desc.indexOf(')'));
    }

    @Override
    protected Class<?> loadClass(final String name, final boolean resolve) throws ClassNotFoundException {
        boolean mine = false;
        for (String p : prefixes) {
            mine |= name.startsWith(p);
        }
        if (!mine) {
            return super.loadClass(name, resolve);
        }
        synchronized (getClassLoadingLock(name)) {
            Class<?> c = findLoadedClass(name);
            if (c == null) {
                final byte[] b;
                try (InputStream in = getParent().getResourceAsStream(name.replace('.', '/') + ".class")) {
                    if (in == null) {
                        throw new ClassNotFoundException(name);
                    }
                    b = instrument(in.readAllBytes());
                } catch (IOException e) {
                    throw new ClassNotFoundException(name, e);
                }
                c = defineClass(name, b, 0, b.length);
            }
            return c;
        }
    }

    private static byte[] instrument(final byte[] code) {
        final ClassReader r = new ClassReader(code);
        final ClassWriter w = new ClassWriter(r, ClassWriter.COMPUTE_MAXS);
        r.accept(new ClassVisitor(Opcodes.ASM9, w) {
            @Override
            public MethodVisitor visitMethod(final int access, final String name, final String desc,
                    final String sig, final String[] ex) {
                return new Counting(super.visitMethod(access, name, desc, sig, ex));
            }
        }, 0);
        return w.toByteArray();
    }

    private static final class Counting extends MethodVisitor {
        Counting(final MethodVisitor m) {
            super(Opcodes.ASM9, m);
        }

        private void one() {
            super.visitMethodInsn(Opcodes.INVOKESTATIC, "vf/Steps", "one", "()V", false);
        }

        private void allocated() {
            super.visitMethodInsn(Opcodes.INVOKESTATIC, "vf/Steps", "allocated", "()V", false);
        }

        private void many() { // the number on the top of the stack
            super.visitInsn(Opcodes.DUP);
            super.visitMethodInsn(Opcodes.INVOKESTATIC, "vf/Steps", "many", "(I)V", false);
        }

        @Override
        public void visitJumpInsn(final int op, final Label label) {
            one();
            super.visitJumpInsn(op, label);
        }

        @Override
        public void visitIntInsn(final int op, final int operand) {
            if (op == Opcodes.NEWARRAY) {
                many();
                allocated();
            }
            super.visitIntInsn(op, operand);
        }

        @Override
        public void visitTypeInsn(final int op, final String type) {
            if (op == Opcodes.ANEWARRAY) {
                many();
            }
            if (op == Opcodes.ANEWARRAY || op == Opcodes.NEW) {
                allocated();
            }
            super.visitTypeInsn(op, type);
        }

        @Override
        public void visitMethodInsn(final int op, final String owner, final String name,
                final String desc, final boolean itf) {
            one();
            if (allocates(owner, name)) {
                allocated();
            }
            if (owner.equals("java/lang/System") && name.equals("arraycopy")
                    || owner.equals("java/util/Arrays") && name.equals("copyOf") && part(desc).endsWith("I")) {
                many();
            } else if (owner.equals("java/util/Arrays") && (name.equals("fill") || name.equals("copyOfRange")
                    || name.equals("copyOf")) && counted(name, desc)) {
                super.visitMethodInsn(op, "vf/Steps$ArraysCounted", name, desc, itf);
                return;
            } else if (owner.startsWith("[") && name.equals("clone")) {
                super.visitInsn(Opcodes.DUP);
                super.visitMethodInsn(Opcodes.INVOKESTATIC, "vf/Steps", "array", "(Ljava/lang/Object;)V", false);
            }
            super.visitMethodInsn(op, owner, name, desc, itf);
        }

        @Override
        public void visitInvokeDynamicInsn(final String name, final String desc,
                final org.objectweb.asm.Handle h, final Object... args) {
            if (!desc.startsWith("()")) { // a lambda with variables, or a concatenation
                allocated();
            }
            super.visitInvokeDynamicInsn(name, desc, h, args);
        }

        @Override
        public void visitMultiANewArrayInsn(final String desc, final int dims) {
            allocated();
            super.visitMultiANewArrayInsn(desc, dims);
        }

        @Override
        public void visitInsn(final int op) {
            if (op >= Opcodes.IALOAD && op <= Opcodes.SALOAD || op >= Opcodes.IASTORE && op <= Opcodes.SASTORE) {
                one();
            }
            super.visitInsn(op);
        }
    }

    private static final Set<String> ALLOCATING = Set.of("valueOf", "copyOf", "copyOfRange", "clone", "format",
            "toString", "of", "asList", "stream", "iterator", "substring", "toUpperCase", "toLowerCase", "toCharArray",
            "getBytes", "concat", "boxed", "wrap", "allocate", "newInstance", "range");

    /** The best known of the JDK's functions with a new object as result. */
    private static boolean allocates(final String owner, final String name) {
        return (owner.startsWith("java/") || owner.startsWith("[")) && ALLOCATING.contains(name)
                && !owner.equals("java/lang/Boolean") && !owner.equals("java/lang/Byte");
    }

    private static boolean counted(final String name, final String desc) {
        for (java.lang.reflect.Method m : ArraysCounted.class.getMethods()) {
            if (m.getName().equals(name) && Type.getMethodDescriptor(m).equals(desc)) {
                return true;
            }
        }
        return false; // not counted, so that the cost is only underestimated
    }

    public static void array(final Object a) {
        many(java.lang.reflect.Array.getLength(a));
    }

    /** The calls of java.util.Arrays whose cost is not on the top of the stack. */
    public static final class ArraysCounted {
        private ArraysCounted() {}

        public static void fill(final boolean[] a, final boolean v) {
            many(a.length);
            Arrays.fill(a, v);
        }

        public static void fill(final boolean[] a, final int from, final int to, final boolean v) {
            many(to - from);
            Arrays.fill(a, from, to, v);
        }

        public static boolean[] copyOfRange(final boolean[] a, final int from, final int to) {
            many(to - from);
            return Arrays.copyOfRange(a, from, to);
        }

        public static void fill(final byte[] a, final byte v) {
            many(a.length);
            Arrays.fill(a, v);
        }

        public static void fill(final byte[] a, final int from, final int to, final byte v) {
            many(to - from);
            Arrays.fill(a, from, to, v);
        }

        public static byte[] copyOfRange(final byte[] a, final int from, final int to) {
            many(to - from);
            return Arrays.copyOfRange(a, from, to);
        }

        public static void fill(final short[] a, final short v) {
            many(a.length);
            Arrays.fill(a, v);
        }

        public static void fill(final short[] a, final int from, final int to, final short v) {
            many(to - from);
            Arrays.fill(a, from, to, v);
        }

        public static short[] copyOfRange(final short[] a, final int from, final int to) {
            many(to - from);
            return Arrays.copyOfRange(a, from, to);
        }

        public static void fill(final char[] a, final char v) {
            many(a.length);
            Arrays.fill(a, v);
        }

        public static void fill(final char[] a, final int from, final int to, final char v) {
            many(to - from);
            Arrays.fill(a, from, to, v);
        }

        public static char[] copyOfRange(final char[] a, final int from, final int to) {
            many(to - from);
            return Arrays.copyOfRange(a, from, to);
        }

        public static void fill(final int[] a, final int v) {
            many(a.length);
            Arrays.fill(a, v);
        }

        public static void fill(final int[] a, final int from, final int to, final int v) {
            many(to - from);
            Arrays.fill(a, from, to, v);
        }

        public static int[] copyOfRange(final int[] a, final int from, final int to) {
            many(to - from);
            return Arrays.copyOfRange(a, from, to);
        }

        public static void fill(final long[] a, final long v) {
            many(a.length);
            Arrays.fill(a, v);
        }

        public static void fill(final long[] a, final int from, final int to, final long v) {
            many(to - from);
            Arrays.fill(a, from, to, v);
        }

        public static long[] copyOfRange(final long[] a, final int from, final int to) {
            many(to - from);
            return Arrays.copyOfRange(a, from, to);
        }

        public static void fill(final float[] a, final float v) {
            many(a.length);
            Arrays.fill(a, v);
        }

        public static void fill(final float[] a, final int from, final int to, final float v) {
            many(to - from);
            Arrays.fill(a, from, to, v);
        }

        public static float[] copyOfRange(final float[] a, final int from, final int to) {
            many(to - from);
            return Arrays.copyOfRange(a, from, to);
        }

        public static void fill(final double[] a, final double v) {
            many(a.length);
            Arrays.fill(a, v);
        }

        public static void fill(final double[] a, final int from, final int to, final double v) {
            many(to - from);
            Arrays.fill(a, from, to, v);
        }

        public static double[] copyOfRange(final double[] a, final int from, final int to) {
            many(to - from);
            return Arrays.copyOfRange(a, from, to);
        }

        public static void fill(final Object[] a, final Object v) {
            many(a.length);
            Arrays.fill(a, v);
        }

        public static void fill(final Object[] a, final int from, final int to, final Object v) {
            many(to - from);
            Arrays.fill(a, from, to, v);
        }

        public static Object[] copyOfRange(final Object[] a, final int from, final int to) {
            many(to - from);
            return Arrays.copyOfRange(a, from, to);
        }

        public static <T> T[] copyOf(final Object[] a, final int n, final Class<? extends T[]> c) {
            many(n);
            return Arrays.copyOf(a, n, c);
        }
    }
}
