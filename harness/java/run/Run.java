import io.envoyproxy.pgv.*;
import java.io.*;
import java.lang.reflect.*;
import java.nio.charset.StandardCharsets;
import java.util.*;

/** Validates the messages of a case file: one line per case. */
public class Run {
  static byte[] unhex(String s) {
    byte[] b = new byte[s.length() / 2];
    for (int i = 0; i < b.length; i++) b[i] = (byte) Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
    return b;
  }

  static String hex(String s) {
    StringBuilder o = new StringBuilder("=");
    for (byte b : String.valueOf(s).getBytes(StandardCharsets.UTF_8)) o.append(String.format("%02x", b & 255));
    return o.toString();
  }

  static Class find(String name) {
    for (String n = name; ; ) {
      try {
        return Class.forName(n);
      } catch (ClassNotFoundException e) {
        int i = n.lastIndexOf('.');
        if (i < 0) throw new RuntimeException("no class " + name);
        n = n.substring(0, i) + "$" + n.substring(i + 1);
      }
    }
  }

  @SuppressWarnings("unchecked")
  static String answer(ValidatorIndex index, Object m) {
    boolean second = false;
    try {
      Validator v = index.validatorFor(m);
      try {
        v.assertValid(m);
        second = true;
        if (!v.isValid(m)) return "E" + hex("assertValid accepts and isValid rejects");
        return "T=";
      } catch (ValidationException e) {
        second = true;
        if (v.isValid(m)) return "E" + hex("assertValid rejects and isValid accepts");
        if (e instanceof UnimplementedException) return "U" + hex(e.toString());
        if (e.getField() == null || e.getReason() == null || e.getReason().isEmpty() || e.getValue() == null) return "E" + hex("an exception without field, reason or value: " + e);
        if (!String.valueOf(e.getMessage()).startsWith(e.getField() + ": " + e.getReason())) return "E" + hex("the message does not start with field and reason: " + e.getMessage());
        return "F" + hex(e.getMessage());
      }
    } catch (Throwable e) {
      StackTraceElement[] st = e.getStackTrace();
      String at = "";
      for (int i = 0; i < Math.min(4, st.length); i++) at += " < " + st[i];
      return "E" + hex((second ? "isValid: " : "") + e + at);
    }
  }

  @SuppressWarnings("unchecked")
  public static void main(String[] a) throws Exception {
    Map<String, Class> classes = new HashMap<>();
    ReflectiveValidatorIndex reflective = new ReflectiveValidatorIndex();
    // the explicit index knows every other validator, and leaves the rest to
    // the reflective one or, for classes without a validator, to nobody
    ExplicitValidatorIndex explicit = new ExplicitValidatorIndex(reflective);
    BufferedReader in = new BufferedReader(new InputStreamReader(new FileInputStream(a[0]), StandardCharsets.UTF_8));
    int n = 0;
    for (String l; (l = in.readLine()) != null; ) {
      String[] p = l.split("\t");
      Class c = find(p[1]);
      classes.put(p[0], c);
      if (p.length > 2 && n++ % 2 == 0) {
        ValidatorImpl impl = (ValidatorImpl) find(p[2]).getMethod("validatorFor", Class.class).invoke(null, c);
        if (impl != null) explicit.add(c, impl);
      }
    }
    in.close();
    in = new BufferedReader(new InputStreamReader(new FileInputStream(a[1]), StandardCharsets.UTF_8));
    PrintStream o = new PrintStream(new BufferedOutputStream(new FileOutputStream(a[2])), false, "UTF-8");
    Map<Class, Method> parsers = new HashMap<>();
    for (String l; (l = in.readLine()) != null; ) {
      String[] p = l.split("\t", 3);
      Class c = classes.get(p[0]);
      if (c == null) {
        o.println("M");
        continue;
      }
      Method parse = parsers.get(c);
      if (parse == null) parsers.put(c, parse = c.getMethod("parseFrom", byte[].class));
      Object m;
      try {
        m = parse.invoke(null, (Object) unhex(p[1]));
      } catch (InvocationTargetException e) {
        o.println("P" + e.getCause() + " " + java.util.Arrays.toString(e.getCause().getStackTrace()));
        continue;
      }
      o.println(answer(reflective, m) + "\t" + answer(explicit, m));
      o.flush();
    }
    o.close();
  }
}
