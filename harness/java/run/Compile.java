import com.google.protobuf.GeneratedMessageV3;
import io.envoyproxy.pgv.*;
import java.io.*;
import java.net.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.stream.Stream;
import javax.tools.*;

/**
 * Compiles and loads sets of generated Java files. A line of the input is
 * "directory of protoc's files TAB directory of the plugin's TAB directory for
 * classes TAB class path TAB class=flags,...": flags are v if the message has a
 * validator. The answer to a line is "ok", or what fails first: "own", "compile",
 * "run", and a text.
 */
public class Compile {
  static String esc(String s) { return s.replace("\\", "\\\\").replace("\t", "\\t").replace("\n", "\\n").replace("\r", "\\r"); }

  static JavaCompiler javac = ToolProvider.getSystemJavaCompiler();

  static String compile(String dir, String out, String cp) throws Exception {
    new File(out).mkdirs();
    List<File> files = new ArrayList<>();
    try (Stream<Path> s = Files.walk(Paths.get(dir))) {
      s.filter(x -> x.toString().endsWith(".java")).sorted().forEach(x -> files.add(x.toFile()));
    }
    if (files.isEmpty()) return null;
    DiagnosticCollector<JavaFileObject> diags = new DiagnosticCollector<>();
    try (StandardJavaFileManager fm = javac.getStandardFileManager(diags, null, StandardCharsets.UTF_8)) {
      StringWriter other = new StringWriter();
      List<String> args = Arrays.asList("-proc:none", "-nowarn", "-d", out, "-cp", cp, "-g:none", "-XDuseUnsharedTable=true");
      if (javac.getTask(other, fm, diags, args, null, fm.getJavaFileObjectsFromFiles(files)).call()) return null;
      for (Diagnostic<? extends JavaFileObject> d : diags.getDiagnostics())
        if (d.getKind() == Diagnostic.Kind.ERROR) {
          String line = "", file = "?";
          if (d.getSource() != null && d.getLineNumber() > 0) {
            Path p = Paths.get(d.getSource().toUri());
            file = Paths.get(dir).relativize(p).toString();
            line = Files.readAllLines(p, StandardCharsets.UTF_8).get((int) d.getLineNumber() - 1).trim();
          }
          return file + ": " + d.getMessage(Locale.ROOT) + ": " + line;
        }
      return "?: " + other;
    }
  }

  static class Skip implements ValidatorIndex {
    final Set<Class> asked = new HashSet<>();
    public <T> Validator<T> validatorFor(Class clazz) {
      asked.add(clazz);
      return Validator.ALWAYS_VALID;
    }
  }

  static String load(String out, String list) throws Exception {
    try (URLClassLoader cl = new URLClassLoader(new URL[] {new File(out).toURI().toURL()}, Compile.class.getClassLoader())) {
      for (String x : list.split(",")) {
        if (x.isEmpty()) continue;
        String name = x.substring(0, x.indexOf('='));
        boolean want = x.endsWith("v");
        Class c = Class.forName(name, true, cl);
        Skip fallback = new Skip();
        Validator v = new ReflectiveValidatorIndex(fallback).validatorFor(c);
        if (!x.endsWith("?") && fallback.asked.contains(c) == want) return name + ": " + (want ? "ReflectiveValidatorIndex finds no validator" : "has a validator though it is ignored, or its file does not import validate.proto");
        Object m = c.getMethod("getDefaultInstance").invoke(null);
        boolean ok;
        try {
          v.assertValid(m);
          ok = true;
        } catch (ValidationException e) {
          ok = false;
        }
        if (v.isValid(m) != ok) return name + ": isValid of the empty message is not " + ok;
      }
    }
    return null;
  }

  static String one(String[] p) throws Exception {
    String e = compile(p[0], p[2], p[3]);
    if (e != null) return "own\t" + esc(e);
    e = compile(p[1], p[2], p[2] + ":" + p[3]);
    if (e != null) return "compile\t" + esc(e);
    try {
      e = load(p[2], p.length > 4 ? p[4] : "");
    } catch (Exception | LinkageError t) {
      StringWriter w = new StringWriter();
      t.printStackTrace(new PrintWriter(w));
      e = w.toString();
    }
    if (e != null) return "run\t" + esc(e);
    return "ok";
  }

  public static void main(String[] a) throws Exception {
    PrintStream o = new PrintStream(new FileOutputStream(a[1]), false, "UTF-8");
    for (String l : Files.readAllLines(Paths.get(a[0]), StandardCharsets.UTF_8)) {
      o.println(one(l.split("\t")));
      o.flush();
    }
    o.close();
  }
}
