package sx;

import freemarker.template.Configuration;
import freemarker.template.DefaultObjectWrapperBuilder;
import freemarker.template.Template;
import freemarker.template.TemplateExceptionHandler;
import java.io.IOException;
import java.io.StringWriter;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.Collection;
import java.util.HashMap;
import java.util.List;
import java.util.Locale;
import java.util.Map;
import java.util.Set;
import java.util.TreeMap;
import java.util.TreeSet;
import java.util.stream.Stream;
import javax.tools.DiagnosticCollector;
import javax.tools.JavaCompiler;
import javax.tools.JavaFileObject;
import javax.tools.StandardJavaFileManager;
import javax.tools.ToolProvider;

/** Renders the templates of the repository and of the harnesses and compiles what the jobs need, in a scratch folder. */
final class Builder {
    /** What a template sees as type, key or value: the repository's own view, and what the harnesses need. */
    public static final class Type {
        private final String name;
        private final String javaType;
        private final boolean generic;

        Type(final String name, final String javaType, final boolean generic) {
            this.name = name;
            this.javaType = javaType;
            this.generic = generic;
        }

        public String getName() {
            return name;
        }

        public String getJavaType() {
            return javaType;
        }

        public String getArrayType() {
            return generic ? "Object" : javaType;
        }

        public String getCast() {
            return generic ? "(" + javaType + ")" : "";
        }

        public String getDeclaration() {
            return generic ? "<" + javaType + ">" : "";
        }

        public boolean isGeneric() {
            return generic;
        }

        // for the harnesses

        /** The type of a value in a harness: no type variables. */
        public String getT() {
            return generic ? "Object" : javaType;
        }

        public boolean isRef() {
            return generic || name.equals("String");
        }

        /** Type argument lists for the classes of the repository. */
        public String getG() {
            return generic ? "<Object>" : "";
        }

        public String getDiamond() {
            return generic ? "<>" : "";
        }

        public String getBox() {
            return switch (name) {
                case "Bool" -> "Boolean";
                case "Char" -> "Character";
                case "Int" -> "Integer";
                case "Generic" -> "Object";
                default -> name;
            };
        }

        /** An expression for any value. */
        public String getAny() {
            return switch (name) {
                case "String" -> "h.Vals.anyString()";
                case "Generic" -> "h.Vals.anyObject()";
                default -> "sx.Sym.any" + name + "()";
            };
        }

        /** Another object that is equal to the expression; the expression itself if it is a primitive. */
        public String twin(final String e) {
            return isRef() ? "h.Vals.twin(" + e + ")" : e;
        }

        public String eq(final String a, final String b) {
            return isRef() ? "h.Vals.same(" + a + ", " + b + ")" : "(" + a + " == " + b + ")";
        }

        /** A check that two values are the same (the very same object, the very same bits). */
        public String check(final String a, final String b, final String msg) {
            return isRef() ? "sx.Sym.checkSame(" + a + ", " + b + ", \"" + msg + "\")"
                    : "sx.Sym.checkEq(" + a + ", " + b + ", \"" + msg + "\")";
        }

        /** A check that two keys are equal: 0.0 and -0.0 are, and so are equal objects. */
        public String checkKey(final String a, final String b, final String msg) {
            return "sx.Sym.check(" + eq(a, b) + ", \"" + msg + "\")";
        }

        /** Does a come before b in the natural order? (NaN is the greatest number, as in Java's own compare.) */
        public String before(final String a, final String b) {
            return switch (name) {
                case "Bool" -> "(" + a + " && !" + b + ")";
                case "Float", "Double" -> "(" + name + ".compare(" + a + ", " + b + ") < 0)";
                case "String" -> "(" + a + ".compareTo(" + b + ") < 0)";
                case "Generic" -> "(((Vals.Obj) " + a + ").compareTo((Vals.Obj) " + b + ") < 0)";
                default -> "(" + a + " < " + b + ")";
            };
        }

        /** The value of small number: distinct for distinct numbers, except for booleans, which tell one number apart. */
        public String of(final String i, final String mark) {
            return switch (name) {
                case "Bool" -> "(" + i + " == " + mark + ")";
                case "String" -> "h.Vals.text(" + i + ")";
                case "Generic" -> "h.Vals.object(" + i + ")";
                default -> "(" + javaType + ") (" + i + ")";
            };
        }

        /** The same, where the order of the values is that of the numbers. */
        public String ordered(final String i) {
            return of(i, "1");
        }

        public String getDefault() {
            return "com.bytefacets.collections.types." + name + "Type.DEFAULT";
        }

        public String getZero() {
            return switch (name) {
                case "Bool" -> "false";
                case "String", "Generic" -> "null";
                default -> "(" + javaType + ") 0";
            };
        }

        @Override
        public String toString() {
            return name;
        }
    }

    static final String[] TYPES = {"Bool", "Byte", "Short", "Char", "Int", "Long", "Float", "Double", "String", "Generic"};
    // excludedFiles of collections/build.gradle.kts
    private static final Set<String> EXCLUDED = Set.of("BoolIndexedCollection.java", "BaseBoolHeap.java", "BaseBoolIndex.java",
            "BoolIndexedSet.java");

    private Builder() {}

    private static Type type(final String name, final String variable) {
        return switch (name) {
            case "Bool" -> new Type(name, "boolean", false);
            case "String" -> new Type(name, "String", false);
            case "Generic" -> new Type(name, variable, true);
            default -> new Type(name, name.toLowerCase(Locale.ROOT), false);
        };
    }

    private static Map<String, Object> model(final Map<String, Type> types) {
        final Map<String, Object> model = new HashMap<>(types);
        final List<String> variables = new ArrayList<>();
        final List<String> instances = new ArrayList<>();
        for (Type t : types.values()) {
            if (t.isGeneric()) {
                variables.add(t.getJavaType());
                instances.add("Object");
            }
        }
        final boolean none = variables.isEmpty();
        model.put("generics", none ? "" : "<" + String.join(", ", variables) + ">");
        model.put("instanceGenerics", none ? "" : "<" + String.join(", ", instances) + ">");
        return model;
    }

    /** Renders all templates; a class name in only (if given) limits what is written. */
    static void render(final Path templates, final Path out, final Set<String> only) throws Exception {
        if (!Files.isDirectory(templates)) {
            return;
        }
        final Configuration config = new Configuration(Configuration.VERSION_2_3_32);
        config.setDirectoryForTemplateLoading(templates.toFile());
        config.setDefaultEncoding("UTF-8");
        config.setObjectWrapper(new DefaultObjectWrapperBuilder(Configuration.VERSION_2_3_32).build());
        config.setTemplateExceptionHandler(TemplateExceptionHandler.RETHROW_HANDLER);
        config.setLogTemplateExceptions(false);
        final List<Path> sources;
        try (Stream<Path> s = Files.walk(templates)) {
            sources = s.filter(p -> p.toString().endsWith(".ftl")).sorted().toList();
        }
        for (Path source : sources) {
            final Path relative = templates.relativize(source);
            final String base = relative.getFileName().toString().replaceFirst("\\.ftl$", "");
            final Template template = config.getTemplate(relative.toString());
            final List<Map<String, Type>> models = new ArrayList<>();
            for (String key : TYPES) {
                if (!base.contains("KeyValue")) {
                    models.add(Map.of("type", type(key, "T")));
                } else if (!key.equals("Bool")) { // there is no Bool-keyed base class
                    for (String value : TYPES) {
                        final Map<String, Type> pair = new TreeMap<>();
                        pair.put("key", type(key, "K"));
                        pair.put("value", type(value, "V"));
                        models.add(pair);
                    }
                }
            }
            for (Map<String, Type> types : models) {
                final String name = types.containsKey("type") ? base.replace("Key", types.get("type").getName())
                        : base.replace("KeyValue", types.get("key").getName() + types.get("value").getName());
                if (only == null ? EXCLUDED.contains(name + ".java") : !only.contains(name)) {
                    continue;
                }
                final StringWriter text = new StringWriter();
                template.process(model(types), text);
                final Path target = out.resolve(relative).resolveSibling(name + ".java");
                Files.createDirectories(target.getParent());
                Files.writeString(target, text.toString());
            }
        }
    }

    /** Compiles the named harness classes, and of the repository what they use. Returns the error text, or null. */
    static String compile(final Path repo, final Path verif, final Path work, final Collection<String> harnesses,
            final String classpath) throws Exception {
        final Path gen = work.resolve("gen");
        final Path harnessGen = work.resolve("harness");
        final Path out = work.resolve("classes");
        Files.createDirectories(gen);
        Files.createDirectories(harnessGen.resolve("h"));
        Files.createDirectories(out);
        final Path main = repo.resolve("collections/src/main");
        render(main.resolve("templates"), gen, null);
        final Set<String> names = new TreeSet<>();
        for (String h : harnesses) {
            names.add(h.substring(h.lastIndexOf('.') + 1));
        }
        render(verif.resolve("harness"), harnessGen, names);
        final List<Path> files = new ArrayList<>();
        for (String n : names) {
            final Path a = harnessGen.resolve("h/" + n + ".java");
            final Path b = verif.resolve("harness/h/" + n + ".java");
            if (Files.exists(a)) {
                files.add(a);
            } else if (Files.exists(b)) {
                files.add(b);
            } else {
                return "no harness " + n;
            }
        }
        String sourcepath = main.resolve("java") + ":" + gen + ":" + harnessGen + ":" + verif.resolve("harness");
        if (Files.isDirectory(main.resolve("generated"))) {
            sourcepath += ":" + main.resolve("generated");
        }
        // the module declaration would turn the source path into a module
        final Path flat = work.resolve("src");
        if (Files.exists(main.resolve("java/module-info.java"))) {
            copyWithout(main.resolve("java"), flat);
            sourcepath = sourcepath.replace(main.resolve("java").toString(), flat.toString());
        }
        final JavaCompiler javac = ToolProvider.getSystemJavaCompiler();
        final DiagnosticCollector<JavaFileObject> diag = new DiagnosticCollector<>();
        try (StandardJavaFileManager fm = javac.getStandardFileManager(diag, Locale.ROOT, StandardCharsets.UTF_8)) {
            final List<String> options = List.of("-nowarn", "-Xlint:none", "-proc:none", "-g", "-implicit:class",
                    "-sourcepath", sourcepath, "-classpath", classpath, "-d", out.toString(), "-encoding", "UTF-8");
            final boolean ok = javac.getTask(null, fm, diag, options, null, fm.getJavaFileObjectsFromPaths(files)).call();
            if (!ok) {
                final StringBuilder sb = new StringBuilder();
                diag.getDiagnostics().stream().filter(d -> d.getKind() == javax.tools.Diagnostic.Kind.ERROR).limit(20)
                        .forEach(d -> sb.append(d).append('\n'));
                return sb.toString();
            }
        }
        return null;
    }

    private static void copyWithout(final Path from, final Path to) throws IOException {
        try (Stream<Path> s = Files.walk(from)) {
            for (Path p : (Iterable<Path>) s::iterator) {
                final Path t = to.resolve(from.relativize(p));
                if (Files.isDirectory(p)) {
                    Files.createDirectories(t);
                } else if (!p.getFileName().toString().equals("module-info.java")) {
                    Files.copy(p, t, java.nio.file.StandardCopyOption.REPLACE_EXISTING);
                }
            }
        }
    }

    static void delete(final Path dir) throws IOException {
        if (!Files.exists(dir)) {
            return;
        }
        try (Stream<Path> s = Files.walk(dir)) {
            for (Path p : (Iterable<Path>) s.sorted((a, b) -> b.compareTo(a))::iterator) {
                Files.delete(p);
            }
        }
    }
}
