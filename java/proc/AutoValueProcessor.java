import java.io.Writer;
import java.util.*;
import javax.annotation.processing.*;
import javax.lang.model.SourceVersion;
import javax.lang.model.element.*;
import javax.lang.model.type.*;
import javax.lang.model.util.ElementFilter;

/** Writes the value classes and builders that AutoValue would write: properties, null and missing checks, equality. */
@SupportedAnnotationTypes("com.google.auto.value.AutoValue")
public class AutoValueProcessor extends AbstractProcessor {
  @Override
  public SourceVersion getSupportedSourceVersion() {
    return SourceVersion.latest();
  }

  @Override
  public boolean process(Set<? extends TypeElement> annotations, RoundEnvironment env) {
    for (TypeElement a : annotations)
      for (Element e : env.getElementsAnnotatedWith(a))
        try {
          write((TypeElement) e);
        } catch (Exception x) {
          throw new RuntimeException(x);
        }
    return true;
  }

  private static String box(TypeMirror t) {
    switch (t.getKind()) {
      case INT: return "Integer";
      case LONG: return "Long";
      case DOUBLE: return "Double";
      case BOOLEAN: return "Boolean";
      case FLOAT: return "Float";
      case BYTE: return "Byte";
      case SHORT: return "Short";
      case CHAR: return "Character";
      default: return t.toString();
    }
  }

  private static boolean nullable(Element e) {
    for (AnnotationMirror a : e.getAnnotationMirrors())
      if (a.getAnnotationType().asElement().getSimpleName().contentEquals("Nullable")) return true;
    return false;
  }

  private static String visibility(Element e) {
    return e.getModifiers().contains(Modifier.PUBLIC) ? "public " : e.getModifiers().contains(Modifier.PROTECTED) ? "protected " : "";
  }

  private void write(TypeElement t) throws Exception {
    String pkg = processingEnv.getElementUtils().getPackageOf(t).getQualifiedName().toString();
    String name = t.getSimpleName().toString();
    for (Element o = t.getEnclosingElement(); o instanceof TypeElement; o = o.getEnclosingElement()) name = o.getSimpleName() + "_" + name;
    name = "AutoValue_" + name;
    String full = t.getQualifiedName().toString();
    TypeElement builder = null;
    for (TypeElement n : ElementFilter.typesIn(t.getEnclosedElements()))
      for (AnnotationMirror a : n.getAnnotationMirrors())
        if (a.getAnnotationType().toString().equals("com.google.auto.value.AutoValue.Builder")) builder = n;
    List<ExecutableElement> props = new ArrayList<>();
    List<ExecutableElement> toBuilder = new ArrayList<>();
    for (ExecutableElement m : ElementFilter.methodsIn(t.getEnclosedElements())) {
      if (!m.getModifiers().contains(Modifier.ABSTRACT) || !m.getParameters().isEmpty()) continue;
      if (builder != null && m.getReturnType().toString().equals(builder.getQualifiedName().toString())) toBuilder.add(m);
      else props.add(m);
    }
    StringBuilder s = new StringBuilder("package " + pkg + ";\n\nfinal class " + name + " extends " + full + " {\n");
    StringBuilder params = new StringBuilder(), body = new StringBuilder(), eq = new StringBuilder("true"), hash = new StringBuilder(), str = new StringBuilder();
    for (ExecutableElement m : props) {
      String n = m.getSimpleName().toString();
      s.append("  private final " + m.getReturnType() + " " + n + ";\n");
      params.append((params.length() > 0 ? ", " : "") + m.getReturnType() + " " + n);
      if (!m.getReturnType().getKind().isPrimitive() && !nullable(m)) body.append("    if (" + n + " == null) throw new NullPointerException(\"Null " + n + "\");\n");
      body.append("    this." + n + " = " + n + ";\n");
      eq.append(" && java.util.Objects.equals(" + n + ", o." + n + ")");
      hash.append((hash.length() > 0 ? ", " : "") + n);
      str.append((str.length() > 0 ? " + \", " : "\"") + n + "=\" + " + n);
    }
    s.append("\n  " + name + "(" + params + ") {\n" + body + "  }\n");
    for (ExecutableElement m : props)
      s.append("\n  @Override\n  " + visibility(m) + m.getReturnType() + " " + m.getSimpleName() + "() {\n    return " + m.getSimpleName() + ";\n  }\n");
    s.append("\n  @Override\n  public boolean equals(Object other) {\n    if (!(other instanceof " + name + ")) return false;\n    " + name + " o = (" + name + ") other;\n    return " + eq + ";\n  }\n");
    s.append("\n  @Override\n  public int hashCode() {\n    return java.util.Objects.hash(" + hash + ");\n  }\n");
    s.append("\n  @Override\n  public String toString() {\n    return \"" + t.getSimpleName() + "{\" + " + (str.length() > 0 ? str : "\"\"") + " + \"}\";\n  }\n");
    if (builder != null) {
      String b = builder.getQualifiedName().toString();
      for (ExecutableElement m : toBuilder) {
        s.append("\n  @Override\n  " + visibility(m) + b + " " + m.getSimpleName() + "() {\n    Builder b = new Builder();\n");
        for (ExecutableElement p : props) s.append("    b." + p.getSimpleName() + " = " + p.getSimpleName() + ";\n");
        s.append("    return b;\n  }\n");
      }
      s.append("\n  static final class Builder extends " + b + " {\n");
      for (ExecutableElement p : props) s.append("    private " + box(p.getReturnType()) + " " + p.getSimpleName() + ";\n");
      s.append("\n    Builder() {}\n");
      for (ExecutableElement m : ElementFilter.methodsIn(builder.getEnclosedElements())) {
        if (!m.getModifiers().contains(Modifier.ABSTRACT)) continue;
        String n = m.getSimpleName().toString();
        if (m.getParameters().isEmpty()) {
          s.append("\n    @Override\n    " + visibility(m) + m.getReturnType() + " " + n + "() {\n");
          for (ExecutableElement p : props)
            if (!nullable(p)) s.append("      if (" + p.getSimpleName() + " == null) throw new IllegalStateException(\"Missing required properties: " + p.getSimpleName() + "\");\n");
          StringBuilder args = new StringBuilder();
          for (ExecutableElement p : props) args.append((args.length() > 0 ? ", " : "") + p.getSimpleName());
          s.append("      return new " + name + "(" + args + ");\n    }\n");
        } else {
          VariableElement v = m.getParameters().get(0);
          String prop = null;
          for (ExecutableElement p : props)
            if (p.getSimpleName().contentEquals(n) || ("set" + p.getSimpleName()).equalsIgnoreCase(n)) prop = p.getSimpleName().toString();
          s.append("\n    @Override\n    " + visibility(m) + m.getReturnType() + " " + n + "(" + v.asType() + " value) {\n");
          if (!v.asType().getKind().isPrimitive()) s.append("      if (value == null) throw new NullPointerException(\"Null " + prop + "\");\n");
          s.append("      this." + prop + " = value;\n      return this;\n    }\n");
        }
      }
      s.append("  }\n");
    }
    s.append("}\n");
    try (Writer w = processingEnv.getFiler().createSourceFile(pkg + "." + name, t).openWriter()) {
      w.write(s.toString());
    }
  }
}
