package verif;

import javax.annotation.processing.*;
import javax.lang.model.SourceVersion;
import javax.lang.model.element.*;
import javax.lang.model.type.*;
import java.io.Writer;
import java.util.*;

/** Generates what the score-client annotation processor generates for @ScoreInterface. */
@SupportedAnnotationTypes("foundation.icon.score.client.ScoreInterface")
public class Proc extends AbstractProcessor {
    @Override public SourceVersion getSupportedSourceVersion() { return SourceVersion.latest(); }

    static String box(TypeMirror t) {
        switch (t.getKind()) {
            case BOOLEAN: return "Boolean"; case INT: return "Integer"; case LONG: return "Long";
            case SHORT: return "Short"; case BYTE: return "Byte"; case CHAR: return "Character";
            default: return t.toString();
        }
    }

    static String raw(TypeMirror t) {
        String s = box(t);
        int i = s.indexOf('<');
        return i < 0 ? s : s.substring(0, i);
    }

    void collect(TypeElement te, Map<String, ExecutableElement> ms) {
        for (Element e : te.getEnclosedElements()) {
            if (e.getKind() == ElementKind.METHOD && !e.getModifiers().contains(Modifier.STATIC)
                    && !e.getModifiers().contains(Modifier.DEFAULT)) {
                ms.putIfAbsent(e.toString(), (ExecutableElement) e);
            }
        }
        for (TypeMirror t : te.getInterfaces()) {
            collect((TypeElement) ((DeclaredType) t).asElement(), ms);
        }
    }

    void emit(StringBuilder sb, ExecutableElement m, boolean payable, boolean over) {
        sb.append(over ? "  public " : "  @Override public ").append(m.getReturnType()).append(" ").append(m.getSimpleName()).append("(");
        StringBuilder args = new StringBuilder();
        boolean first = true;
        if (over) {
            sb.append("java.math.BigInteger valueForPayable");
            first = false;
        }
        for (VariableElement p : m.getParameters()) {
            if (!first) sb.append(", ");
            first = false;
            sb.append(p.asType()).append(" ").append(p.getSimpleName());
            args.append(", (Object) ").append(p.getSimpleName());
        }
        sb.append(") {\n    ");
        boolean ret = m.getReturnType().getKind() != TypeKind.VOID;
        if (ret) sb.append("return (").append(box(m.getReturnType())).append(") ");
        sb.append("score.Context.call(");
        if (ret) sb.append(raw(m.getReturnType())).append(".class, ");
        if (payable) sb.append("valueForPayable == null ? java.math.BigInteger.ZERO : valueForPayable, ");
        sb.append("address, \"").append(m.getSimpleName()).append("\"").append(args).append(");\n  }\n");
    }

    @Override public boolean process(Set<? extends TypeElement> anns, RoundEnvironment env) {
        for (TypeElement a : anns) for (Element e : env.getElementsAnnotatedWith(a)) {
            if (e.getKind() != ElementKind.INTERFACE) continue;
            TypeElement te = (TypeElement) e;
            String pkg = processingEnv.getElementUtils().getPackageOf(te).getQualifiedName().toString();
            String suffix = "ScoreInterface";
            for (AnnotationMirror am : te.getAnnotationMirrors())
                if (am.getAnnotationType().toString().endsWith(".ScoreInterface"))
                    for (var v : am.getElementValues().entrySet())
                        if (!v.getValue().getValue().toString().isEmpty()) suffix = v.getValue().getValue().toString();
            String name = te.getSimpleName() + suffix;
            if (processingEnv.getElementUtils().getTypeElement(pkg + "." + name) != null) continue;
            Map<String, ExecutableElement> ms = new LinkedHashMap<>();
            collect(te, ms);
            StringBuilder sb = new StringBuilder();
            sb.append("package ").append(pkg).append(";\n");
            sb.append("public final class ").append(name).append(" implements ").append(te.getSimpleName()).append(" {\n");
            sb.append("  protected final score.Address address;\n  protected final java.math.BigInteger valueForPayable;\n");
            sb.append("  public ").append(name).append("(score.Address address) { this(address, null); }\n");
            sb.append("  public ").append(name).append("(score.Address address, java.math.BigInteger valueForPayable) { this.address = address; this.valueForPayable = valueForPayable; }\n");
            sb.append("  public score.Address _getAddress() { return address; }\n  public score.Address _address() { return address; }\n");
            sb.append("  public java.math.BigInteger _getICX() { return valueForPayable; }\n");
            sb.append("  public ").append(name).append(" _payable(java.math.BigInteger v) { return new ").append(name).append("(address, v); }\n");
            sb.append("  public ").append(name).append(" _payable(long v) { return _payable(java.math.BigInteger.valueOf(v)); }\n");
            for (ExecutableElement m : ms.values()) {
                boolean payable = false;
                for (AnnotationMirror am : m.getAnnotationMirrors())
                    if (am.getAnnotationType().toString().equals("score.annotation.Payable")) payable = true;
                emit(sb, m, payable, false);
                if (payable) emit(sb, m, true, true);
            }
            sb.append("}\n");
            try (Writer w = processingEnv.getFiler().createSourceFile(pkg + "." + name, te).openWriter()) {
                w.write(sb.toString());
            } catch (Exception ex) {
                throw new RuntimeException(ex);
            }
        }
        return false;
    }
}
