package fpv;

import java.nio.file.Files;
import java.nio.file.Path;
import java.nio.file.Paths;
import java.util.HashMap;
import java.util.HashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.stream.Collectors;
import java.util.stream.Stream;
import org.objectweb.asm.ClassReader;
import org.objectweb.asm.ClassVisitor;
import org.objectweb.asm.ClassWriter;
import org.objectweb.asm.Label;
import org.objectweb.asm.MethodVisitor;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.Type;

/** Writes a copy of the library that counts its steps: entered methods, jumps back, and bulk work of the platform. */
public final class Instrument {
  private static int sites;

  private Instrument() {}

  public static void main(String[] a) throws Exception {
    Path in = Paths.get(a[0]), out = Paths.get(a[1]);
    List<Path> files;
    try (Stream<Path> s = Files.walk(in)) {
      files = s.filter(Files::isRegularFile).sorted().collect(Collectors.toList());
    }
    for (Path p : files) {
      Path q = out.resolve(in.relativize(p));
      Files.createDirectories(q.getParent());
      byte[] b = Files.readAllBytes(p);
      Files.write(q, p.toString().endsWith(".class") ? weave(b) : b);
    }
    System.out.println(sites);
  }

  private static byte[] weave(byte[] in) {
    ClassReader cr = new ClassReader(in);
    Map<String, Integer> locals = new HashMap<>();
    cr.accept(
        new ClassVisitor(Opcodes.ASM9) {
          @Override
          public MethodVisitor visitMethod(int acc, String name, String desc, String sig, String[] ex) {
            return new MethodVisitor(Opcodes.ASM9) {
              @Override
              public void visitMaxs(int s, int l) {
                locals.put(name + desc, l);
              }
            };
          }
        },
        0);
    ClassWriter cw = new ClassWriter(cr, ClassWriter.COMPUTE_MAXS);
    cr.accept(
        new ClassVisitor(Opcodes.ASM9, cw) {
          @Override
          public MethodVisitor visitMethod(int acc, String name, String desc, String sig, String[] ex) {
            MethodVisitor mv = super.visitMethod(acc, name, desc, sig, ex);
            return mv == null || name.equals("<clinit>") ? mv : new Steps(mv, locals.getOrDefault(name + desc, 0));
          }
        },
        0);
    return cw.toByteArray();
  }

  private static final class Steps extends MethodVisitor {
    private final Set<Label> seen = new HashSet<>();
    private final int free;

    Steps(MethodVisitor mv, int free) {
      super(Opcodes.ASM9, mv);
      this.free = free;
    }

    private void call(String name, String desc) {
      sites++;
      super.visitMethodInsn(Opcodes.INVOKESTATIC, "fpv/Meter", name, desc, false);
    }

    @Override
    public void visitCode() {
      super.visitCode();
      call("tick", "()V");
    }

    @Override
    public void visitLabel(Label l) {
      seen.add(l);
      super.visitLabel(l);
    }

    @Override
    public void visitJumpInsn(int op, Label l) {
      if (seen.contains(l)) call("tick", "()V");
      super.visitJumpInsn(op, l);
    }

    @Override
    public void visitMethodInsn(int op, String owner, String name, String desc, boolean itf) {
      if (!owner.startsWith("java/") || name.equals("<init>")) {
        super.visitMethodInsn(op, owner, name, desc, itf);
        return;
      }
      boolean builder = owner.startsWith("java/lang/StringBu");
      if (op == Opcodes.INVOKESTATIC) {
        if (owner.equals("java/lang/System") && name.equals("arraycopy")) {
          super.visitInsn(Opcodes.DUP);
          call("count", "(I)V");
        } else if (owner.equals("java/util/Arrays") && name.equals("fill") && desc.equals("([CIIC)V")) {
          super.visitInsn(Opcodes.DUP2);
          super.visitInsn(Opcodes.POP);
          call("count", "(I)V");
        }
      } else if (builder
          && (name.equals("insert") || name.equals("delete") || name.equals("deleteCharAt") || name.equals("replace") || name.equals("reverse"))) {
        receiver(desc);
      } else if (owner.startsWith("java/util/") && !owner.contains("Map") && !owner.contains("Set")
          && (name.equals("contains") || name.equals("indexOf") || name.equals("lastIndexOf") || name.equals("removeIf") || name.equals("remove") && !desc.equals("()V") && !owner.contains("Iterator") || name.equals("add") && desc.equals("(ILjava/lang/Object;)V"))) {
        receiver(desc);
      } else if (builder && name.equals("append") && desc.startsWith("(Ljava/lang/") && Type.getArgumentTypes(desc).length == 1) {
        super.visitInsn(Opcodes.DUP);
        call("size", "(Ljava/lang/Object;)V");
      } else if (name.equals("append") && desc.startsWith("(Ljava/lang/CharSequence;II)")) {
        // end, start: charged by their difference
        super.visitInsn(Opcodes.DUP2);
        super.visitInsn(Opcodes.SWAP);
        super.visitInsn(Opcodes.ISUB);
        call("count", "(I)V");
      } else if (owner.equals("java/lang/String") && (name.equals("equals") || name.equals("matches") || name.equals("compareTo") || name.equals("regionMatches") || name.equals("contains") || name.equals("hashCode") || name.equals("codePointCount"))) {
        receiver(desc);
      } else if ((owner.equals("java/lang/String") || builder) && (name.equals("indexOf") || name.equals("lastIndexOf"))) {
        search(op, owner, name, desc, itf);
        return;
      }
      super.visitMethodInsn(op, owner, name, desc, itf);
      String ret = desc.substring(desc.indexOf(')') + 1);
      if (ret.equals("Ljava/lang/String;") || ret.startsWith("Ljava/math/Big") || ret.equals("[C") || ret.equals("Ljava/lang/CharSequence;") || ret.equals("[Ljava/lang/Object;") || ret.equals("[Ljava/lang/String;")) {
        super.visitInsn(Opcodes.DUP);
        call("size", "(Ljava/lang/Object;)V");
      }
    }

    private int[] spill(Type[] args) {
      int[] at = new int[args.length];
      int l = free;
      for (int i = args.length - 1; i >= 0; i--) {
        at[i] = l;
        super.visitVarInsn(args[i].getOpcode(Opcodes.ISTORE), l);
        l += args[i].getSize();
      }
      return at;
    }

    private void reload(Type[] args, int[] at) {
      for (int i = 0; i < args.length; i++) super.visitVarInsn(args[i].getOpcode(Opcodes.ILOAD), at[i]);
    }

    private void receiver(String desc) {
      Type[] args = Type.getArgumentTypes(desc);
      int[] at = spill(args);
      super.visitInsn(Opcodes.DUP);
      call("size", "(Ljava/lang/Object;)V");
      reload(args, at);
    }

    /** Searching costs the distance gone. */
    private void search(int op, String owner, String name, String desc, boolean itf) {
      boolean back = name.startsWith("last");
      Type[] args = Type.getArgumentTypes(desc);
      int[] at = spill(args);
      int l = free;
      for (Type t : args) l += t.getSize();
      super.visitInsn(Opcodes.DUP);
      super.visitVarInsn(Opcodes.ASTORE, l);
      reload(args, at);
      super.visitMethodInsn(op, owner, name, desc, itf);
      super.visitInsn(Opcodes.DUP);
      super.visitVarInsn(Opcodes.ISTORE, l + 1);
      super.visitVarInsn(Opcodes.ALOAD, l);
      if (args.length > 1) super.visitVarInsn(Opcodes.ILOAD, at[1]);
      else super.visitInsn(back ? Opcodes.ICONST_M1 : Opcodes.ICONST_0);
      super.visitVarInsn(Opcodes.ILOAD, l + 1);
      call(back ? "back" : "search", "(Ljava/lang/Object;II)V");
    }
  }
}
