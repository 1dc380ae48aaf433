import com.google.protobuf.*;
import com.google.protobuf.util.*;
import com.google.re2j.Pattern;
import io.envoyproxy.pgv.*;
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.util.*;
import java.util.concurrent.*;

/** Calls the classes of the validation library: one line per call. */
public class Lib {
  static final String FIELD = ".lib.Case.f";

  static String text(String a) { return new String(Run.unhex(a.substring(1)), StandardCharsets.UTF_8); }

  static Object val(String type, String a) {
    switch (type) {
      case "i32": case "u32": return (int) Long.parseLong(a);
      case "i64": case "u64": return a.startsWith("-") ? Long.parseLong(a) : Long.parseUnsignedLong(a);
      case "f32": return Float.intBitsToFloat((int) Long.parseLong(a));
      case "f64": return Double.longBitsToDouble(Long.parseUnsignedLong(a));
      case "bool": return a.equals("1");
      case "str": return text(a);
      case "byt": return ByteString.copyFrom(Run.unhex(a.substring(1)));
      case "dur": { String[] p = a.split(":"); return TimestampValidation.toDuration(Long.parseLong(p[0]), Long.parseLong(p[1])); }
      case "ts": { String[] p = a.split(":"); return TimestampValidation.toTimestamp(Long.parseLong(p[0]), Integer.parseInt(p[1])); }
      case "enum": return a.equals("0") ? NullValue.NULL_VALUE : NullValue.UNRECOGNIZED;
    }
    throw new IllegalStateException("type " + type);
  }

  static Comparator<Object> cmp(String type) {
    switch (type) {
      case "u32": return (a, b) -> Integer.compareUnsigned((Integer) a, (Integer) b);
      case "u64": return (a, b) -> Long.compareUnsigned((Long) a, (Long) b);
      case "dur": return (a, b) -> Durations.comparator().compare((Duration) a, (Duration) b);
      case "ts": return (a, b) -> Timestamps.comparator().compare((Timestamp) a, (Timestamp) b);
    }
    @SuppressWarnings({"unchecked", "rawtypes"}) Comparator<Object> c = (a, b) -> ((Comparable) a).compareTo(b);
    return c;
  }

  static Object opt(String type, String a) { return a.equals("-") ? null : val(type, a); }

  static List<Object> list(String type, String a) {
    List<Object> l = new ArrayList<>();
    if (!a.equals("-")) for (String x : a.split(",")) l.add(val(type, x));
    return l;
  }

  static Object[] array(String type, String a) {
    List<Object> l = list(type, a);
    switch (type) {
      case "i32": case "u32": return l.toArray(new Integer[0]);
      case "i64": case "u64": return l.toArray(new Long[0]);
      case "str": return l.toArray(new String[0]);
      case "byt": return l.toArray(new ByteString[0]);
    }
    return l.toArray();
  }

  static Object value; // what the exception has to carry

  static void call(String op, String t, String[] a) throws ValidationException {
    String s = null;
    ByteString b = null;
    if (t.equals("str") && !a[0].isEmpty() && a[0].charAt(0) == 'x' && a[0].indexOf(',') < 0) s = text(a[0]);
    if (t.equals("byt") && !a[0].isEmpty() && a[0].charAt(0) == 'x' && a[0].indexOf(',') < 0) b = (ByteString) val(t, a[0]);
    switch (op) {
      case "lt": ComparativeValidation.lessThan(FIELD, value = val(t, a[0]), val(t, a[1]), cmp(t)); return;
      case "lte": ComparativeValidation.lessThanOrEqual(FIELD, value = val(t, a[0]), val(t, a[1]), cmp(t)); return;
      case "gt": ComparativeValidation.greaterThan(FIELD, value = val(t, a[0]), val(t, a[1]), cmp(t)); return;
      case "gte": ComparativeValidation.greaterThanOrEqual(FIELD, value = val(t, a[0]), val(t, a[1]), cmp(t)); return;
      case "range": ComparativeValidation.range(FIELD, value = val(t, a[0]), opt(t, a[1]), opt(t, a[2]), opt(t, a[3]), opt(t, a[4]), cmp(t)); return;
      case "between": ComparativeValidation.between(FIELD, value = val(t, a[0]), val(t, a[1]), a[2].equals("1"), val(t, a[3]), a[4].equals("1"), cmp(t)); return;
      case "outside": ComparativeValidation.outside(FIELD, value = val(t, a[0]), val(t, a[1]), a[2].equals("1"), val(t, a[3]), a[4].equals("1"), cmp(t)); return;
      case "in": CollectiveValidation.in(FIELD, value = val(t, a[0]), array(t, a[1])); return;
      case "notIn": CollectiveValidation.notIn(FIELD, value = val(t, a[0]), array(t, a[1])); return;
      case "const": ConstantValidation.constant(FIELD, value = val(t, a[0]), val(t, a[1])); return;
      case "definedOnly": EnumValidation.definedOnly(FIELD, (NullValue) (value = val(t, a[0]))); return;
      case "required": RequiredValidation.required(FIELD, a[0].equals("0") ? null : StringValue.getDefaultInstance()); return;
      case "within": TimestampValidation.within(FIELD, (Timestamp) (value = val("ts", a[0])), (Duration) val("dur", a[1]), (Timestamp) val("ts", a[2])); return;
      case "minItems": { List<Object> l = list(t, a[0]); value = l; RepeatedValidation.minItems(FIELD, l, Integer.parseInt(a[1])); return; }
      case "maxItems": { List<Object> l = list(t, a[0]); value = l; RepeatedValidation.maxItems(FIELD, l, Integer.parseInt(a[1])); return; }
      case "unique": { List<Object> l = list(t, a[0]); value = l; RepeatedValidation.unique(FIELD, l); return; }
      case "forEach": case "parts": {
        List<Object> l = list(t, a[0]), seen = new ArrayList<>();
        Object limit = val(t, a[1]);
        boolean done = false;
        try {
          if (op.equals("forEach")) RepeatedValidation.forEach(l, x -> { seen.add(x); ComparativeValidation.lessThan(FIELD, value = x, limit, cmp(t)); });
          else MapValidation.validateParts(l, x -> { seen.add(x); ComparativeValidation.lessThan(FIELD, value = x, limit, cmp(t)); });
          done = true;
        } finally {
          if (!seen.equals(l.subList(0, seen.size())) || done && seen.size() != l.size()) throw new IllegalStateException("visited " + seen + " of " + l);
        }
        return;
      }
      case "min": MapValidation.min(FIELD, (Map) (value = map(a[0])), Integer.parseInt(a[1])); return;
      case "max": MapValidation.max(FIELD, (Map) (value = map(a[0])), Integer.parseInt(a[1])); return;
      case "length": StringValidation.length(FIELD, s, Integer.parseInt(a[1])); return;
      case "minLength": StringValidation.minLength(FIELD, s, Integer.parseInt(a[1])); return;
      case "maxLength": StringValidation.maxLength(FIELD, s, Integer.parseInt(a[1])); return;
      case "lenBytes": StringValidation.lenBytes(FIELD, s, Integer.parseInt(a[1])); return;
      case "minBytes": StringValidation.minBytes(FIELD, s, Integer.parseInt(a[1])); return;
      case "maxBytes": StringValidation.maxBytes(FIELD, s, Integer.parseInt(a[1])); return;
      case "pattern": StringValidation.pattern(FIELD, s, Pattern.compile(text(a[1]))); return;
      case "prefix": StringValidation.prefix(FIELD, s, text(a[1])); return;
      case "suffix": StringValidation.suffix(FIELD, s, text(a[1])); return;
      case "contains": StringValidation.contains(FIELD, s, text(a[1])); return;
      case "notContains": StringValidation.notContains(FIELD, s, text(a[1])); return;
      case "email": StringValidation.email(FIELD, s); return;
      case "address": StringValidation.address(FIELD, s); return;
      case "hostname": StringValidation.hostName(FIELD, s); return;
      case "ip": StringValidation.ip(FIELD, s); return;
      case "ipv4": StringValidation.ipv4(FIELD, s); return;
      case "ipv6": StringValidation.ipv6(FIELD, s); return;
      case "uri": StringValidation.uri(FIELD, s); return;
      case "uri_ref": StringValidation.uriRef(FIELD, s); return;
      case "uuid": StringValidation.uuid(FIELD, s); return;
      case "b.length": BytesValidation.length(FIELD, b, Integer.parseInt(a[1])); return;
      case "b.minLength": BytesValidation.minLength(FIELD, b, Integer.parseInt(a[1])); return;
      case "b.maxLength": BytesValidation.maxLength(FIELD, b, Integer.parseInt(a[1])); return;
      case "b.pattern": BytesValidation.pattern(FIELD, b, Pattern.compile(text(a[1]))); return;
      case "b.prefix": BytesValidation.prefix(FIELD, b, Run.unhex(a[1].substring(1))); return;
      case "b.suffix": BytesValidation.suffix(FIELD, b, Run.unhex(a[1].substring(1))); return;
      case "b.contains": BytesValidation.contains(FIELD, b, Run.unhex(a[1].substring(1))); return;
      case "b.ip": BytesValidation.ip(FIELD, b); return;
      case "b.ipv4": BytesValidation.ipv4(FIELD, b); return;
      case "b.ipv6": BytesValidation.ipv6(FIELD, b); return;
    }
    throw new IllegalStateException("no operation " + op);
  }

  static Map<Object, Object> map(String n) {
    Map<Object, Object> m = new HashMap<>();
    for (int i = 0; i < Integer.parseInt(n); i++) m.put(i, "v" + i);
    return m;
  }

  static String one(String[] p) {
    String[] args = Arrays.copyOfRange(p, 2, p.length);
    value = null;
    try {
      if (p[0].equals("index")) return "S" + Run.hex(script(args[0], 1));
      if (p[0].equals("threads")) return "S" + Run.hex(script(args[0], 4));
      call(p[0], p[1], args);
      return "T=";
    } catch (ValidationException e) {
      String bad = null;
      if (!FIELD.equals(e.getField())) bad = "the field " + e.getField() + " in the exception";
      else if (e.getReason() == null || e.getReason().isEmpty()) bad = "no reason in the exception";
      else if (e.getValue() == null) bad = "no value in the exception";
      else if (value != null && !value.equals(e.getValue())) bad = "the value " + e.getValue() + " in the exception";
      else if (p[1].equals("str") && value == null && !p[0].equals("email") && !String.valueOf(e.getValue()).contains(text(args[0]))) bad = "the value " + e.getValue() + " in the exception";
      else if (!(e.getField() + ": " + e.getReason() + " - Got " + e.getValue()).equals(e.getMessage())) bad = "the message " + e.getMessage();
      return bad != null ? "E" + Run.hex(bad) : "F" + Run.hex(e.getMessage());
    } catch (Throwable e) {
      return "E" + Run.hex(e + " " + Arrays.toString(Arrays.copyOf(e.getStackTrace(), Math.min(3, e.getStackTrace().length))));
    }
  }

  static final Object[] MSGS = {StringValue.getDefaultInstance(), Any.getDefaultInstance(), Duration.getDefaultInstance(), Timestamp.getDefaultInstance(),
      Int32Value.getDefaultInstance(), Struct.getDefaultInstance()};

  static ValidatorIndex index(List<ValidatorIndex> l, String s) {
    switch (s) {
      case "V": return ValidatorIndex.ALWAYS_VALID;
      case "I": return ValidatorIndex.ALWAYS_INVALID;
    }
    return l.get(Integer.parseInt(s));
  }

  @SuppressWarnings("unchecked")
  static char judge(Validator v, Object m) {
    boolean ok = true;
    try {
      v.assertValid(m);
    } catch (ValidationException e) {
      ok = false;
    }
    if (ok != v.isValid(m)) return '!';
    return ok ? 'T' : 'F';
  }

  // script makes indexes, adds validators to them and asks them; every
  // question is put by n threads at once.
  @SuppressWarnings("unchecked")
  static String script(String text, int n) throws Exception {
    List<ValidatorIndex> idx = new ArrayList<>();
    List<Validator> kept = new ArrayList<>();
    StringBuilder out = new StringBuilder();
    ExecutorService pool = n > 1 ? Executors.newFixedThreadPool(n) : null;
    try {
      for (String step : text.split(",")) {
        String[] p = step.split(":");
        Validator v = null;
        Object m = null;
        ValidatorIndex from = null;
        switch (p[0]) {
          case "E": idx.add(p.length > 1 ? new ExplicitValidatorIndex(index(idx, p[1])) : new ExplicitValidatorIndex()); break;
          case "R": idx.add(p.length > 1 ? new ReflectiveValidatorIndex(index(idx, p[1])) : new ReflectiveValidatorIndex()); break;
          case "A": {
            Class c = MSGS[Integer.parseInt(p[2])].getClass();
            ValidatorImpl impl;
            switch (p[3]) {
              case "V": impl = (x, i) -> { }; break;
              case "A": impl = ValidatorImpl.ALWAYS_VALID; break;
              case "I": impl = (x, i) -> { throw new ValidationException(FIELD, x, "is never valid"); }; break;
              default: { // as the message of another class
                Object other = MSGS[Integer.parseInt(p[3])];
                impl = (x, i) -> i.validatorFor(other).assertValid(other);
              }
            }
            ExplicitValidatorIndex e = (ExplicitValidatorIndex) idx.get(Integer.parseInt(p[1]));
            if (e.add(c, impl) != e) throw new IllegalStateException("add gives another index");
            break;
          }
          case "Q": m = MSGS[Integer.parseInt(p[2])]; from = index(idx, p[1]); break;
          case "C": m = MSGS[Integer.parseInt(p[2])]; v = index(idx, p[1]).validatorFor(m.getClass()); break;
          case "K": kept.add(index(idx, p[1]).validatorFor(MSGS[Integer.parseInt(p[2])])); break;
          case "U": v = kept.get(Integer.parseInt(p[1])); m = MSGS[Integer.parseInt(p[2])]; break;
          default: throw new IllegalStateException(step);
        }
        if (m == null) continue;
        final Validator fv = v;
        final Object fm = m;
        final ValidatorIndex ff = from;
        Callable<Character> ask = () -> judge(fv != null ? fv : ff.validatorFor(fm), fm);
        char c;
        if (pool == null) c = ask.call();
        else {
          List<Future<Character>> all = pool.invokeAll(Collections.nCopies(n, ask));
          c = all.get(0).get();
          for (Future<Character> f : all) if (f.get() != c) c = '!';
        }
        out.append(c);
      }
    } finally {
      if (pool != null) pool.shutdown();
    }
    return out.toString();
  }

  public static void main(String[] a) throws Exception {
    BufferedReader in = new BufferedReader(new InputStreamReader(new FileInputStream(a[0]), StandardCharsets.UTF_8));
    PrintStream o = new PrintStream(new BufferedOutputStream(new FileOutputStream(a[1])), false, "UTF-8");
    for (String l; (l = in.readLine()) != null; ) o.println(one(l.split("\t", -1)));
    o.close();
  }
}
