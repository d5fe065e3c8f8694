package fpv.race;

import java.util.Arrays;
import java.util.HashSet;
import java.util.Set;
import org.objectweb.asm.ClassReader;
import org.objectweb.asm.ClassVisitor;
import org.objectweb.asm.ClassWriter;
import org.objectweb.asm.FieldVisitor;
import org.objectweb.asm.Label;
import org.objectweb.asm.MethodVisitor;
import org.objectweb.asm.Opcodes;

/** Inserts a scheduling point before every access to fields and arrays and before calls out of the library, and reports what is accessed. */
final class Weaver {
  private static final Set<String> CHANGEABLE =
      new HashSet<>(
          Arrays.asList(
              "Ljava/lang/StringBuilder;",
              "Ljava/lang/StringBuffer;",
              "Ljava/util/Map;",
              "Ljava/util/HashMap;",
              "Ljava/util/LinkedHashMap;",
              "Ljava/util/WeakHashMap;",
              "Ljava/util/IdentityHashMap;",
              "Ljava/util/List;",
              "Ljava/util/ArrayList;",
              "Ljava/util/Deque;",
              "Ljava/util/ArrayDeque;",
              "Ljava/util/Queue;",
              "Ljava/util/Set;",
              "Ljava/util/HashSet;",
              "Ljava/util/BitSet;",
              "Ljava/util/Date;",
              "Ljava/util/Calendar;",
              "Ljava/text/DateFormat;",
              "Ljava/text/SimpleDateFormat;",
              "Ljava/text/DecimalFormat;",
              "Ljava/text/NumberFormat;",
              "Ljava/util/Formatter;",
              "Ljava/nio/CharBuffer;"));

  private Weaver() {}

  static byte[] weave(byte[] in) {
    ClassReader cr = new ClassReader(in);
    ClassWriter cw = new ClassWriter(cr, ClassWriter.COMPUTE_MAXS);
    String cls = cr.getClassName();
    cr.accept(
        new ClassVisitor(Opcodes.ASM9, cw) {
          private final Set<String> fixed = new HashSet<>();

          @Override
          public FieldVisitor visitField(int acc, String name, String desc, String sig, Object value) {
            if ((acc & Opcodes.ACC_FINAL) != 0) fixed.add(name);
            return super.visitField(acc, name, desc, sig, value);
          }

          @Override
          public MethodVisitor visitMethod(int acc, String name, String desc, String sig, String[] ex) {
            MethodVisitor mv = super.visitMethod(acc, name, desc, sig, ex);
            if (mv == null || name.equals("<clinit>")) return mv;
            return new Points(mv, cls, name, fixed);
          }
        },
        0);
    return cw.toByteArray();
  }

  private static final class Points extends MethodVisitor {
    private final String cls;
    private final String method;
    private final Set<String> fixed;
    private int line;
    private int seq;

    Points(MethodVisitor mv, String cls, String method, Set<String> fixed) {
      super(Opcodes.ASM9, mv);
      this.cls = cls;
      this.method = method;
      this.fixed = fixed;
    }

    /** Reports the object on top of the stack (and takes it away). */
    private void touch(int key, boolean write) {
      super.visitLdcInsn(key);
      super.visitInsn(write ? Opcodes.ICONST_1 : Opcodes.ICONST_0);
      super.visitMethodInsn(Opcodes.INVOKESTATIC, "fpv/race/Sched", "touch", "(Ljava/lang/Object;IZ)V", false);
    }

    private void touchField(int op, String owner, String name, String desc) {
      boolean wide = desc.equals("J") || desc.equals("D");
      int key = Sched.site("field " + owner + "." + name, false);
      switch (op) {
        case Opcodes.PUTSTATIC:
          super.visitInsn(Opcodes.ACONST_NULL);
          touch(key, true);
          break;
        case Opcodes.GETSTATIC:
          if (!owner.startsWith("io/fastprintf/")) break;
          super.visitInsn(Opcodes.ACONST_NULL);
          // an object that can be changed counts as changed
          touch(key, CHANGEABLE.contains(desc));
          break;
        case Opcodes.PUTFIELD:
          if (method.equals("<init>")) break;
          if (wide) {
            super.visitInsn(Opcodes.DUP2_X1);
            super.visitInsn(Opcodes.POP2);
            super.visitInsn(Opcodes.DUP_X2);
          } else {
            super.visitInsn(Opcodes.DUP2);
            super.visitInsn(Opcodes.POP);
          }
          touch(key, true);
          break;
        default:
          if (method.equals("<init>") || owner.equals(cls) && fixed.contains(name)) break;
          super.visitInsn(Opcodes.DUP);
          touch(key, false);
      }
    }

    private void touchArray(int op) {
      int key = Sched.site("array " + cls + "." + method + ":" + line + "#" + seq++, false);
      if (op <= Opcodes.SALOAD) {
        super.visitInsn(Opcodes.DUP2);
        super.visitInsn(Opcodes.POP);
        touch(key, false);
        return;
      }
      if (op == Opcodes.LASTORE || op == Opcodes.DASTORE) {
        super.visitInsn(Opcodes.DUP2_X2);
        super.visitInsn(Opcodes.POP2);
        super.visitInsn(Opcodes.DUP2_X2);
      } else {
        super.visitInsn(Opcodes.DUP_X2);
        super.visitInsn(Opcodes.POP);
        super.visitInsn(Opcodes.DUP2_X1);
      }
      super.visitInsn(Opcodes.POP);
      touch(key, true);
    }

    private void point(String what, boolean hot) {
      int id = Sched.site(cls + "." + method + ":" + line + "#" + seq++ + " " + what, hot);
      super.visitLdcInsn(id);
      super.visitMethodInsn(Opcodes.INVOKESTATIC, "fpv/race/Sched", "point", "(I)V", false);
    }

    @Override
    public void visitLineNumber(int l, Label start) {
      line = l;
      super.visitLineNumber(l, start);
    }

    @Override
    public void visitCode() {
      super.visitCode();
      if (!method.equals("<init>")) point("enter", false);
    }

    @Override
    public void visitFieldInsn(int op, String owner, String name, String desc) {
      boolean write = op == Opcodes.PUTFIELD || op == Opcodes.PUTSTATIC;
      touchField(op, owner, name, desc);
      boolean hot = write ? op == Opcodes.PUTSTATIC || !method.equals("<init>") : op == Opcodes.GETSTATIC;
      point((write ? "write " : "read ") + name, hot);
      super.visitFieldInsn(op, owner, name, desc);
    }

    @Override
    public void visitInsn(int op) {
      boolean array = op >= Opcodes.IALOAD && op <= Opcodes.SALOAD || op >= Opcodes.IASTORE && op <= Opcodes.SASTORE;
      if (array && !method.equals("<init>")) touchArray(op);
      if (op >= Opcodes.IALOAD && op <= Opcodes.SALOAD) point("array read", false);
      else if (op >= Opcodes.IASTORE && op <= Opcodes.SASTORE) point("array write", true);
      super.visitInsn(op);
    }

    @Override
    public void visitMethodInsn(int op, String owner, String name, String desc, boolean itf) {
      if (!owner.startsWith("io/fastprintf/") && !name.equals("<init>")) {
        boolean hot = owner.startsWith("java/util/") || owner.equals("java/lang/ThreadLocal") || owner.startsWith("java/lang/StringBu");
        if (!owner.equals("java/lang/Math") && !owner.equals("java/lang/Long")) point("call " + owner + "." + name, hot);
      }
      super.visitMethodInsn(op, owner, name, desc, itf);
    }
  }
}
