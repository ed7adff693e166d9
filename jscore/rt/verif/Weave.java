package verif;

import jdk.internal.org.objectweb.asm.*;

/** Replaces the body of a method annotated with EventLog by a record of the event. */
public class Weave {
    public static byte[] events(byte[] in) {
        ClassReader r = new ClassReader(in);
        boolean[] found = {false};
        // find the annotated methods first
        java.util.Map<String, Integer> evs = new java.util.HashMap<>();
        r.accept(new ClassVisitor(Opcodes.ASM8) {
            @Override public MethodVisitor visitMethod(int acc, String name, String desc, String sig, String[] ex) {
                return new MethodVisitor(Opcodes.ASM8) {
                    @Override public AnnotationVisitor visitAnnotation(String d, boolean vis) {
                        if (!d.equals("Lscore/annotation/EventLog;") || (acc & Opcodes.ACC_ABSTRACT) != 0) return null;
                        evs.put(name + desc, 0);
                        return new AnnotationVisitor(Opcodes.ASM8) {
                            @Override public void visit(String n, Object v) { if (n.equals("indexed")) evs.put(name + desc, (Integer) v); }
                        };
                    }
                };
            }
        }, 0);
        if (evs.isEmpty()) return in;
        ClassWriter w = new ClassWriter(r, ClassWriter.COMPUTE_MAXS);
        r.accept(new ClassVisitor(Opcodes.ASM8, w) {
            @Override public MethodVisitor visitMethod(int acc, String name, String desc, String sig, String[] ex) {
                Integer idx = evs.get(name + desc);
                MethodVisitor out = super.visitMethod(acc, name, desc, sig, ex);
                if (idx == null) return out;
                return new MethodVisitor(Opcodes.ASM8) {
                    @Override public AnnotationVisitor visitAnnotation(String d, boolean v) { return out.visitAnnotation(d, v); }
                    @Override public AnnotationVisitor visitParameterAnnotation(int p, String d, boolean v) { return out.visitParameterAnnotation(p, d, v); }
                    @Override public void visitEnd() {
                        out.visitCode();
                        out.visitLdcInsn(name);
                        Type[] ts = Type.getArgumentTypes(desc);
                        out.visitIntInsn(Opcodes.BIPUSH, ts.length);
                        out.visitTypeInsn(Opcodes.ANEWARRAY, "java/lang/Object");
                        int slot = 1;
                        for (int i = 0; i < ts.length; i++) {
                            out.visitInsn(Opcodes.DUP);
                            out.visitIntInsn(Opcodes.BIPUSH, i);
                            out.visitVarInsn(ts[i].getOpcode(Opcodes.ILOAD), slot);
                            slot += ts[i].getSize();
                            String box = null;
                            switch (ts[i].getSort()) {
                                case Type.BOOLEAN: box = "java/lang/Boolean"; break;
                                case Type.INT: box = "java/lang/Integer"; break;
                                case Type.LONG: box = "java/lang/Long"; break;
                                case Type.SHORT: box = "java/lang/Short"; break;
                                case Type.BYTE: box = "java/lang/Byte"; break;
                                case Type.CHAR: box = "java/lang/Character"; break;
                            }
                            if (box != null) out.visitMethodInsn(Opcodes.INVOKESTATIC, box, "valueOf", "(" + ts[i].getDescriptor() + ")L" + box + ";", false);
                            out.visitInsn(Opcodes.AASTORE);
                        }
                        out.visitIntInsn(Opcodes.BIPUSH, idx);
                        out.visitMethodInsn(Opcodes.INVOKESTATIC, "verif/Rt", "event", "(Ljava/lang/String;[Ljava/lang/Object;I)V", false);
                        out.visitInsn(Opcodes.RETURN);
                        out.visitMaxs(0, 0);
                        out.visitEnd();
                    }
                };
            }
        }, 0);
        return w.toByteArray();
    }
}
