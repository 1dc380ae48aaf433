import sys; sys.path.insert(0,'/verif/tools')
a=sys.argv[1:]; sys.argv=[sys.argv[0],'none']
from seeds2 import cc
from seeds3 import java
import seeds3
sys.argv[1:]=a
seeds3.PROTO='syntax = "proto3";\n%s\n'
java('c26-java-service-conflict','C26',[('templates/java/register.go','''	for _, service := range file.Services() {
		if service.Name().String() == outerClassName {
			conflict = true
		}
	}

''','')],
 'a service with the name of the Java class of the file','the validators refer to a class that protoc calls DemoOuterClass',
 'package demo; import "validate/validate.proto"; message M { int32 a = 1 [(validate.rules).int32.gt = 3]; } service Demo { rpc Do (M) returns (M); }',
'''    want("3", demo.DemoOuterClass.M.newBuilder().setA(3).build(), false);
    want("4", demo.DemoOuterClass.M.newBuilder().setA(4).build(), true);''')
java('c26-java-empty-package','C26',[('templates/java/register.go','if options != nil && options.JavaPackage != nil {','if options.GetJavaPackage() != "" {')],
 'a file with a package and an empty java_package','the validators are in the package of the proto file, and refer to classes that are not there',
 'package demo; option java_package = ""; option java_outer_classname = "Own"; import "validate/validate.proto"; message M { int32 a = 1 [(validate.rules).int32.gt = 3]; }',
'''    want("3", Own.M.newBuilder().setA(3).build(), false);
    want("4", Own.M.newBuilder().setA(4).build(), true);''')
cc('c26-cc-has-keyword','C26',[('templates/cc/register.go','''		"m.has_%s()",
		fns.methodName(ctx.Field.Name()))''','''		"m.has_%s()",
		strings.ToLower(ctx.Field.Name().String()))''')],
 'a field of a message or wrapper type named by a C++ keyword','the C++ code does not compile: the accessor is has_operator_',
 'message N { int32 x = 1 [(validate.rules).int32.gt = 0]; } message M { N operator = 1; }',
 '''  M m;
  want("unset", m, true);
  m.mutable_operator_(); want("0", m, false);
  m.mutable_operator_()->set_x(1); want("1", m, true);''')
