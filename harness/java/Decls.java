import com.sun.source.tree.*;
import com.sun.source.util.*;
import java.io.*;
import java.nio.file.*;
import java.util.*;
import javax.tools.*;

/** Prints the declarations of Java sources, one JSON object per member. Arguments: files that list sources; writes LIST.decls. */
public class Decls {
    static String q(String s) {
        if (s == null) return "null";
        StringBuilder b = new StringBuilder("\"");
        for (char c : s.toCharArray()) {
            if (c == '"' || c == '\\') b.append('\\').append(c);
            else if (c < 32 || c > 126) b.append(String.format("\\u%04x", (int) c));
            else b.append(c);
        }
        return b.append('"').toString();
    }
    static String list(List<String> l) {
        return "[" + String.join(",", l) + "]";
    }
    static String ann(ModifiersTree m) {
        List<String> l = new ArrayList<>();
        for (AnnotationTree x : m.getAnnotations()) l.add(x.getAnnotationType().toString());
        return q(String.join(" ", l));
    }
    public static void main(String[] a) throws Exception {
        JavaCompiler jc = ToolProvider.getSystemJavaCompiler();
        for (String lst : a) {
            List<File> fs = new ArrayList<>();
            for (String l : Files.readAllLines(Paths.get(lst))) fs.add(new File(l));
            StandardJavaFileManager fm = jc.getStandardFileManager(null, null, null);
            JavacTask t = (JavacTask) jc.getTask(null, fm, null, List.of("-proc:none"), null, fm.getJavaFileObjectsFromFiles(fs));
            DocTrees dt = DocTrees.instance(t);
            PrintWriter o = new PrintWriter(lst + ".decls", "UTF-8");
            for (CompilationUnitTree cu : t.parse()) {
                String file = new File(cu.getSourceFile().getName()).getName();
                new TreePathScanner<Void, String>() {
                    void line(String kind, String cls, String name, ModifiersTree m, List<String> more) {
                        List<String> mods = new ArrayList<>();
                        if (m != null) for (Object x : m.getFlags()) mods.add(q(x.toString()));
                        o.println("{\"file\":" + q(file) + ",\"pkg\":" + q(String.valueOf(cu.getPackageName())) + ",\"kind\":" + q(kind) + ",\"cls\":" + q(cls)
                            + ",\"name\":" + q(name) + ",\"mods\":" + list(mods) + ",\"doc\":" + q(dt.getDocComment(getCurrentPath())) + String.join("", more) + "}");
                    }
                    @Override public Void visitClass(ClassTree c, String outer) {
                        String n = c.getSimpleName().toString();
                        line("" + c.getKind(), outer, n, c.getModifiers(), List.of());
                        return super.visitClass(c, n);
                    }
                    @Override public Void visitMethod(MethodTree m, String cls) {
                        List<String> ps = new ArrayList<>(), th = new ArrayList<>(), an = new ArrayList<>();
                        for (VariableTree v : m.getParameters()) ps.add("[" + q(v.getType().toString()) + "," + q(v.getName().toString()) + "]");
                        for (VariableTree v : m.getParameters()) an.add(ann(v.getModifiers()));
                        for (ExpressionTree e : m.getThrows()) th.add(q(e.toString()));
                        line("METHOD", cls, m.getName().toString(), m.getModifiers(), List.of(",\"ret\":" + q(String.valueOf(m.getReturnType())), ",\"params\":" + list(ps), ",\"throws\":" + list(th), ",\"pann\":" + list(an), ",\"rann\":" + ann(m.getModifiers())));
                        return null;
                    }
                    @Override public Void visitVariable(VariableTree v, String cls) {
                        boolean ec = v.getType() != null && v.getModifiers().getFlags().contains(javax.lang.model.element.Modifier.FINAL) && v.getType().toString().equals(cls) && v.getInitializer() instanceof NewClassTree;
                        line(ec ? "ITEM" : "FIELD", cls, v.getName().toString(), v.getModifiers(), List.of(",\"type\":" + q(String.valueOf(v.getType()))));
                        return null;
                    }
                }.scan(cu, "");
            }
            o.close();
        }
    }
}
