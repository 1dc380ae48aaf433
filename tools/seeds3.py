import sys,os,subprocess; sys.path.insert(0,'/tmp/sd'); sys.path.insert(0,'/verif/tools')
from seedlib import seed
J=open('/verif/tools/javademo.sh').read()
PROTO='''syntax = "proto3";
package demo;
import "validate/validate.proto";
%s
'''
MAIN='''%s
import io.envoyproxy.pgv.*;

public class Main {
  static boolean bad;

  static void want(String name, Object m, boolean ok) throws Exception {
    want(name, ok, () -> new ReflectiveValidatorIndex().validatorFor(m).assertValid(m));
  }

  interface Call {
    void call() throws Exception;
  }

  static void want(String name, boolean ok, Call c) throws Exception {
    boolean got = true;
    String why = "";
    try {
      c.call();
    } catch (ValidationException e) {
      got = false;
      why = " " + e.getMessage();
    }
    if (got != ok) {
      System.out.println(name + ": valid=" + got + ", want " + ok + why);
      bad = true;
    }
  }

  public static void main(String[] a) throws Exception {
%s
    System.exit(bad ? 1 : 0);
  }
}
'''
R='java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/'
def java(id,prop,edits,needs,breaks,proto,body,inc=''):
    if len(sys.argv)>1 and id not in sys.argv[1:]: return
    fs={'Main.java.txt':MAIN%(inc,body)}
    if proto: fs['demo.proto']=PROTO%proto
    seed(id,prop,edits,needs,breaks,demo=J,files=fs)
    subprocess.check_call("tar -C /verif/harness/java/stub --sort=name --mtime=2020-01-01 --owner=0 --group=0 -cf - . | gzip -n > /verif/seeded/%s/stub.tgz"%id,shell=True)
    d='/verif/seeded/'+id
    W='/tmp/seedwt'
    r0=subprocess.run(['bash',d+'/demo.sh'],cwd='/repo',capture_output=True,text=True)
    subprocess.check_call(['git','-C',W,'apply',d+'/patch.diff'])
    r1=subprocess.run(['bash',d+'/demo.sh'],cwd=W,capture_output=True,text=True)
    subprocess.check_call(['git','-C',W,'checkout','-q','--','.'])
    print('JAVA',id,'clean',r0.returncode,'bug',r1.returncode,'OK' if r0.returncode==0 and r1.returncode!=0 else 'PROBLEM',(r0.stdout+r0.stderr)[-800:],(r1.stdout+r1.stderr)[-200:])

java('c22-java-range-outside','C22',[(R+'ComparativeValidation.java','outside(field, value, ltx, !ltxInc, gtx, !gtxInc, comparator);','outside(field, value, ltx, ltxInc, gtx, gtxInc, comparator);')],
 'a range whose upper bound is below its lower one, and a value equal to a bound','the bounds of a range turned inside out are judged the wrong way round',None,
'''    java.util.Comparator<Integer> c = java.util.Comparator.naturalOrder();
    want("3 of lt 3, gte 7", false, () -> ComparativeValidation.range("f", 3, 3, null, null, 7, c));
    want("7 of lt 3, gte 7", true, () -> ComparativeValidation.range("f", 7, 3, null, null, 7, c));
    want("5 of lt 3, gte 7", false, () -> ComparativeValidation.range("f", 5, 3, null, null, 7, c));
    want("3 of lte 3, gt 7", true, () -> ComparativeValidation.range("f", 3, null, 3, 7, null, c));
    want("7 of lte 3, gt 7", false, () -> ComparativeValidation.range("f", 7, null, 3, 7, null, c));''')
java('c22-java-min-len-utf16','C22',[(R+'StringValidation.java','''        final int actual = value.codePointCount(0, value.length());
        if (actual < expected) {''','''        final int actual = value.length();
        if (actual < expected) {''')],
 'a string with code points above U+FFFF, as long in UTF-16 but shorter in code points than min_len','min_len counts UTF-16 code units',None,
'''    want("abc", true, () -> StringValidation.minLength("f", "abc", 3));
    want("two emoji", false, () -> StringValidation.minLength("f", "\\ud83d\\ude00\\ud83d\\ude00", 3));
    want("three emoji", true, () -> StringValidation.minLength("f", "\\ud83d\\ude00\\ud83d\\ude00\\ud83d\\ude00", 3));''')
java('c22-java-unique-neighbours','C22',[(R+'RepeatedValidation.java','''        Set<T> seen = new HashSet<>();
        for (T value : values) {
            // Abort at the first sign of a duplicate
            if (!seen.add(value)) {
                throw''','''        Set<T> seen = new HashSet<>(2);
        T last = null;
        for (T value : values) {
            // Abort at the first sign of a duplicate
            if (value.equals(last)) {
                throw'''),(R+'RepeatedValidation.java','''must have all unique values");
            }
''','''must have all unique values");
            }
            seen.add(value);
            last = value;
''')],
 'a list with a duplicate that is not next to the first one','unique only compares neighbours',None,
'''    want("1 2 3", true, () -> RepeatedValidation.unique("f", java.util.Arrays.asList(1, 2, 3)));
    want("1 1", false, () -> RepeatedValidation.unique("f", java.util.Arrays.asList(1, 1)));
    want("1 2 1", false, () -> RepeatedValidation.unique("f", java.util.Arrays.asList(1, 2, 1)));''')
java('c22-java-add-twice','C22',[(R+'ExplicitValidatorIndex.java','VALIDATOR_IMPL_INDEX.put(forType, validator);','VALIDATOR_IMPL_INDEX.putIfAbsent(forType, validator);')],
 'a class whose validator is replaced by another add','the first validator stays',None,
'''    ExplicitValidatorIndex i = new ExplicitValidatorIndex();
    i.add(String.class, (p, x) -> { throw new ValidationException("f", p, "first"); });
    want("first", false, () -> i.validatorFor("a").assertValid("a"));
    i.add(String.class, (p, x) -> { });
    want("second", true, () -> i.validatorFor("a").assertValid("a"));''')
java('c22-java-uuid-case','C22',[(R+'StringValidation.java',"(c < 'a' || c > 'f') && (c < 'A' || c > 'F')","(c < 'A' || c > 'f')")],
 'a text shaped like a UUID with letters from G to Z','uuid accepts letters that are no hex digits',None,
'''    want("hex", true, () -> StringValidation.uuid("f", "b45c0c80-8880-11e9-A5b1-000000000000"));
    want("G", false, () -> StringValidation.uuid("f", "b45c0c80-8880-11e9-G5b1-000000000000"));
    want("g", false, () -> StringValidation.uuid("f", "b45c0c80-8880-11e9-g5b1-000000000000"));''')
java('c23-java-len-zero','C23',[('templates/java/bytes.go','{{- if $r.Len }}','{{- if $r.GetLen }}')],
 'bytes with len: 0 and a value that is not empty','len: 0 is not enforced',
 'message M { bytes a = 1 [(validate.rules).bytes.len = 0]; bytes b = 2 [(validate.rules).bytes = {len: 1, ignore_empty: true}]; }',
'''    want("empty", demo.Demo.M.newBuilder().build(), true);
    want("a", demo.Demo.M.newBuilder().setA(com.google.protobuf.ByteString.copyFromUtf8("a")).build(), false);
    want("b", demo.Demo.M.newBuilder().setB(com.google.protobuf.ByteString.copyFromUtf8("bb")).build(), false);''')
java('c23-java-ignore-empty-num','C23',[('templates/java/num.go','''{{- if $r.GetIgnoreEmpty }}
			if ( {{ accessor . }} != 0 ) {''','''{{- if and $r.GetIgnoreEmpty (not $r.NotIn) }}
			if ( {{ accessor . }} != 0 ) {'''),('templates/java/num.go','''{{- if $r.GetIgnoreEmpty }}
			}''','''{{- if and $r.GetIgnoreEmpty (not $r.NotIn) }}
			}''')],
 'ignore_empty beside not_in on a number that is 0','ignore_empty does nothing beside not_in',
 'message M { int32 a = 1 [(validate.rules).int32 = {ignore_empty: true, not_in: [0, 7]}]; }',
'''    want("0", demo.Demo.M.newBuilder().build(), true);
    want("7", demo.Demo.M.newBuilder().setA(7).build(), false);
    want("8", demo.Demo.M.newBuilder().setA(8).build(), true);''')
java('c23-java-in-enum-alias','C23',[('templates/java/enum.go','''{{- if $r.NotIn }}
			io.envoyproxy.pgv.CollectiveValidation.notIn''','''{{- if and $r.NotIn (not $r.GetDefinedOnly) }}
			io.envoyproxy.pgv.CollectiveValidation.notIn''')],
 'an enum with defined_only and not_in','not_in is not checked beside defined_only',
 'enum E { A = 0; B = 1; } message M { E a = 1 [(validate.rules).enum = {defined_only: true, not_in: [1]}]; }',
'''    want("A", demo.Demo.M.newBuilder().build(), true);
    want("B", demo.Demo.M.newBuilder().setA(demo.Demo.E.B).build(), false);''')
java('c25-java-map-keys-only','C25',[('templates/java/map.go','''{{ if or (ne (.Elem "" "").Typ "none") (ne (.Key "" "").Typ "none") }}
			io.envoyproxy.pgv.MapValidation''','''{{ if ne (.Elem "" "").Typ "none" }}
			io.envoyproxy.pgv.MapValidation''')],
 'a map with rules on its keys alone','rules on keys are not checked unless the values have rules too',
 'message M { map<string, int32> a = 1 [(validate.rules).map.keys.string.min_len = 2]; }',
'''    want("ab", demo.Demo.M.newBuilder().putA("ab", 1).build(), true);
    want("b", demo.Demo.M.newBuilder().putA("b", 1).build(), false);''')
java('c25-java-required-oneof','C25',[('templates/java/oneof.go','''				{{- if required . }}
				default: ''','''				{{- if and (required .) (gt (len .Fields) 1) }}
				default: ''')],
 'a required oneof with one field','a required oneof with a single field may be unset',
 'message M { oneof o { option (validate.required) = true; int32 a = 1; } } message N { oneof o { option (validate.required) = true; int32 a = 1; int32 b = 2; } }',
'''    want("M set", demo.Demo.M.newBuilder().setA(0).build(), true);
    want("M", demo.Demo.M.newBuilder().build(), false);
    want("N", demo.Demo.N.newBuilder().build(), false);''')
java('c25-java-wrapper-list-empty','C25',[('templates/java/repeated.go','''{{- if $r.GetUnique }}
			io.envoyproxy''','''{{- if and $r.GetUnique (not $r.GetMinItems) }}
			io.envoyproxy''')],
 'a list with unique and min_items','unique is not checked beside min_items',
 'message M { repeated int32 a = 1 [(validate.rules).repeated = {unique: true, min_items: 1}]; }',
'''    want("1 2", demo.Demo.M.newBuilder().addA(1).addA(2).build(), true);
    want("1 1", demo.Demo.M.newBuilder().addA(1).addA(1).build(), false);''')
java('c25-java-duration-range-incl','C25',[('templates/java/timestamp.go','{{ if $r.Lte }}{{ constantName . "Lte" }}{{ else }}null{{ end }}, {{ if $r.Gt }}','{{ if $r.Lte }}{{ constantName . "Lte" }}{{ else }}null{{ end }}, {{ if and $r.Gt $r.Lt }}',1),
 ('templates/java/timestamp.go','{{ if $r.Gte }}{{ constantName . "Gte" }}{{ else }}null{{ end }}, com','{{ if $r.Gte }}{{ constantName . "Gte" }}{{ else if not $r.Lt }}{{ constantName . "Gt" }}{{ else }}null{{ end }}, com',1)],
 'a timestamp with gt and lte, at the value of gt','gt beside lte includes its value',
 'import "google/protobuf/timestamp.proto"; message M { google.protobuf.Timestamp a = 1 [(validate.rules).timestamp = {gt: {seconds: 5}, lte: {seconds: 9}}]; }',
'''    want("5", demo.Demo.M.newBuilder().setA(TimestampValidation.toTimestamp(5, 0)).build(), false);
    want("5.000000001", demo.Demo.M.newBuilder().setA(TimestampValidation.toTimestamp(5, 1)).build(), true);
    want("9", demo.Demo.M.newBuilder().setA(TimestampValidation.toTimestamp(9, 0)).build(), true);
    want("10", demo.Demo.M.newBuilder().setA(TimestampValidation.toTimestamp(10, 0)).build(), false);''')
