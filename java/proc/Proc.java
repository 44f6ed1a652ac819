package proc;

import java.io.IOException;
import java.io.Writer;
import java.util.HashSet;
import java.util.List;
import java.util.Set;
import javax.annotation.processing.AbstractProcessor;
import javax.annotation.processing.RoundEnvironment;
import javax.annotation.processing.SupportedAnnotationTypes;
import javax.lang.model.SourceVersion;
import javax.lang.model.element.Element;
import javax.lang.model.element.ElementKind;
import javax.lang.model.element.ExecutableElement;
import javax.lang.model.element.Modifier;
import javax.lang.model.element.TypeElement;
import javax.lang.model.element.VariableElement;
import javax.lang.model.type.TypeKind;
import javax.lang.model.util.ElementFilter;

/**
 * Stands in for the platform's build step: callers of annotated interfaces
 * (XScoreInterface) and recorders of the event methods (X__Rec extends X).
 */
@SupportedAnnotationTypes("*")
public class Proc extends AbstractProcessor {
    private final Set<String> done = new HashSet<>();

    @Override
    public SourceVersion getSupportedSourceVersion() { return SourceVersion.latest(); }

    private static boolean has(Element e, String a) {
        return e.getAnnotationMirrors().stream().anyMatch(m -> m.getAnnotationType().toString().equals(a));
    }

    @Override
    public boolean process(Set<? extends TypeElement> as, RoundEnvironment env) {
        for (Element e : env.getRootElements()) {
            if (!(e instanceof TypeElement)) {
                continue;
            }
            TypeElement t = (TypeElement) e;
            if (t.getKind() == ElementKind.INTERFACE && has(t, "foundation.icon.score.client.ScoreInterface")) {
                caller(t);
            }
            if (t.getKind() == ElementKind.CLASS && !t.getModifiers().contains(Modifier.FINAL)
                    && !t.getModifiers().contains(Modifier.ABSTRACT)) {
                recorder(t);
            }
        }
        return false;
    }

    private void write(TypeElement t, String name, String body) {
        String pkg = processingEnv.getElementUtils().getPackageOf(t).getQualifiedName().toString();
        String q = pkg + "." + name;
        if (!done.add(q) || processingEnv.getElementUtils().getTypeElement(q) != null) {
            return;
        }
        try (Writer w = processingEnv.getFiler().createSourceFile(q, t).openWriter()) {
            w.write("package " + pkg + ";\n\n" + body);
        } catch (IOException e) {
            throw new IllegalStateException(e);
        }
    }

    private static String box(String s) {
        switch (s) {
            case "int": return "Integer";
            case "long": return "Long";
            case "boolean": return "Boolean";
            case "byte": return "Byte";
            case "short": return "Short";
            case "char": return "Character";
            default: return s;
        }
    }

    private static String params(List<? extends VariableElement> ps, boolean types) {
        StringBuilder sb = new StringBuilder();
        for (VariableElement p : ps) {
            sb.append(sb.length() > 0 ? ", " : "").append(types ? p.asType() + " " : "").append(p.getSimpleName());
        }
        return sb.toString();
    }

    private void caller(TypeElement t) {
        String n = t.getSimpleName() + "ScoreInterface";
        StringBuilder sb = new StringBuilder("@SuppressWarnings({\"rawtypes\", \"unchecked\"})\npublic class " + n + " implements " + t.getSimpleName() + " {\n"
                + "    protected final score.Address address;\n\n    public " + n + "(score.Address address) { this.address = address; }\n\n"
                + "    public score.Address _address() { return address; }\n");
        for (Element m : processingEnv.getElementUtils().getAllMembers(t)) {
            if (m.getKind() != ElementKind.METHOD || m.getModifiers().contains(Modifier.STATIC)
                    || m.getModifiers().contains(Modifier.DEFAULT) || m.getEnclosingElement().toString().equals("java.lang.Object")) {
                continue;
            }
            ExecutableElement x = (ExecutableElement) m;
            String ret = x.getReturnType().toString();
            boolean v = x.getReturnType().getKind() == TypeKind.VOID;
            String ps = params(x.getParameters(), true), as = params(x.getParameters(), false);
            String raw = ret.replaceAll("<.*>", "");
            String call = (v ? "" : "return (" + box(ret) + ") ") + "score.Context.call(" + (v ? "" : box(raw) + ".class, ");
            String tail = "\"" + x.getSimpleName() + "\"" + (as.isEmpty() ? "" : ", new Object[] {" + as + "}") + ");";
            if (has(x, "score.annotation.EventLog")) {
                sb.append("\n    public " + ret + " " + x.getSimpleName() + "(" + ps + ") { throw new RuntimeException(\"not supported EventLog method\"); }\n");
                continue;
            }
            sb.append("\n    public " + ret + " " + x.getSimpleName() + "(" + ps + ") { " + call + "address, " + tail + " }\n");
            if (has(x, "score.annotation.Payable")) {
                sb.append("\n    public " + ret + " " + x.getSimpleName() + "(java.math.BigInteger valueForPayable" + (ps.isEmpty() ? "" : ", " + ps) + ") { "
                        + call + "valueForPayable, address, " + tail + " }\n");
            }
        }
        write(t, n, sb.append("}\n").toString());
    }

    private void recorder(TypeElement t) {
        StringBuilder sb = new StringBuilder();
        String n = t.getSimpleName() + "__Rec";
        boolean any = false;
        Set<String> seen = new HashSet<>();
        for (ExecutableElement x : ElementFilter.methodsIn(processingEnv.getElementUtils().getAllMembers(t))) {
            if (!has(x, "score.annotation.EventLog") || x.getModifiers().contains(Modifier.ABSTRACT)
                    || x.getModifiers().contains(Modifier.STATIC) || x.getModifiers().contains(Modifier.PRIVATE)
                    || x.getModifiers().contains(Modifier.FINAL) || !seen.add(x.toString())) {
                continue;
            }
            any = true;
            String as = params(x.getParameters(), false);
            sb.append("\n    @Override\n    " + (x.getModifiers().contains(Modifier.PUBLIC) ? "public " : x.getModifiers().contains(Modifier.PROTECTED) ? "protected " : "")
                    + "void " + x.getSimpleName() + "(" + params(x.getParameters(), true) + ") {\n        super." + x.getSimpleName() + "(" + as + ");\n"
                    + "        vm.Chain.event(\"" + x.getSimpleName() + "\"" + (as.isEmpty() ? "" : ", new Object[] {" + as + "}") + ");\n    }\n");
        }
        if (!any) {
            return;
        }
        StringBuilder c = new StringBuilder("public class " + n + " extends " + t.getSimpleName() + " {\n");
        for (ExecutableElement x : ElementFilter.constructorsIn(t.getEnclosedElements())) {
            if (x.getModifiers().contains(Modifier.PRIVATE)) {
                continue;
            }
            c.append("    public " + n + "(" + params(x.getParameters(), true) + ") { super(" + params(x.getParameters(), false) + "); }\n");
        }
        write(t, n, c.append(sb).append("}\n").toString());
    }
}
