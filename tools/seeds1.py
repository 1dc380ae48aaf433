from mk import seed
G='templates/goshared/'
seed('c01-inverted-gte-lt','C01',[(G+'ltgt.go','if val := {{ accessor . }}; val >= {{ $r.Lt }} && val < {{ $r.Gte }} {','if val := {{ accessor . }}; val > {{ $r.Lt }} && val < {{ $r.Gte }} {')],
 'a number field with lt below gte (values outside the gap allowed) and a value equal to lt',
 'the lower end of the forbidden gap, which lt excludes, is accepted',
 'message M { int32 a = 1 [(validate.rules).int32 = {lt: 3, gte: 10}]; }',
 '''	want("2", &pb.M{A: 2}, true)
	want("3", &pb.M{A: 3}, false)
	want("9", &pb.M{A: 9}, false)
	want("10", &pb.M{A: 10}, true)''')
seed('c07-max-items-zero','C07',[(G+'repeated.go','{{ else if $r.MaxItems }}\n\t\tif len','{{ else if $r.GetMaxItems }}\n\t\tif len')],
 'a list with max_items: 0 and no min_items', 'max_items: 0 is not enforced, so any list passes',
 'message M { repeated int32 a = 1 [(validate.rules).repeated.max_items = 0]; }',
 '''	want("none", &pb.M{}, true)
	want("one", &pb.M{A: []int32{1}}, false)''')
seed('c02-equal-bytes-bounds','C02',[(G+'string.go','''			if len({{ accessor . }}) != {{ $r.GetMinBytes }} {''','''			if utf8.RuneCountInString({{ accessor . }}) != {{ $r.GetMinBytes }} {''')],
 'a string field with min_bytes equal to max_bytes and a value with multi-byte characters','the exact byte length is compared with the number of characters',
 'message M { string a = 1 [(validate.rules).string = {min_bytes: 4, max_bytes: 4}]; }',
 '''	want("abcd", &pb.M{A: "abcd"}, true)
	want("2x2", &pb.M{A: "éé"}, true)
	want("4x2", &pb.M{A: "éééé"}, false)''')
seed('c03-display-name','C03',[(G+'known.go','''		addr = a.Address

		if len(addr) > 254 {
			return errors.New("email addresses cannot exceed 254 characters")
		}
''','''		if len(addr) > 254 {
			return errors.New("email addresses cannot exceed 254 characters")
		}

		addr = a.Address
''')],
 'an email with a display name that makes the whole text longer than 254 characters','the limit of 254 characters applies to the text with the display name, not to the address',
 'message M { string a = 1 [(validate.rules).string.email = true]; }',
 '''	want("plain", &pb.M{A: "a@example.com"}, true)
	want("named", &pb.M{A: "Foo Bar <a@example.com>"}, true)
	want("long name", &pb.M{A: strings.Repeat("Foo ", 70) + "<a@example.com>"}, true)''',imports='"strings"')
seed('c04-max-len-zero','C04',[(G+'bytes.go','{{ else if $r.MaxLen }}','{{ else if $r.GetMaxLen }}')],
 'a bytes field with max_len: 0 and no min_len','max_len: 0 is not enforced',
 'message M { bytes a = 1 [(validate.rules).bytes.max_len = 0]; }',
 '''	want("empty", &pb.M{}, true)
	want("one", &pb.M{A: []byte{1}}, false)''')
seed('c05-defined-only-not-in','C05',[(G+'enum.go','{{ if $r.GetDefinedOnly }}','{{ if and $r.GetDefinedOnly (not $r.NotIn) }}')],
 'an enum field with both defined_only and not_in, and an undeclared number','defined_only is dropped when not_in is set as well',
 'enum E { A = 0; B = 1; C = 2; }\nmessage M { E a = 1 [(validate.rules).enum = {defined_only: true, not_in: [1]}]; }',
 '''	want("0", &pb.M{A: 0}, true)
	want("1", &pb.M{A: 1}, false)
	want("7", &pb.M{A: 7}, false)''')
seed('c06-disabled-inherited','C06',[('templates/shared/disabled.go','''	_, err = msg.Extension(validate.E_Disabled, &disabled)
	return''','''	if _, err = msg.Extension(validate.E_Disabled, &disabled); err != nil || disabled {
		return
	}

	if parent, ok := msg.Parent().(pgs.Message); ok {
		return Disabled(parent)
	}

	return''')],
 'a message type declared inside a message with the disabled option, and used somewhere else','types declared inside a disabled message lose their own rules',
 '''message D { option (validate.disabled) = true; message N { int32 x = 1 [(validate.rules).int32.gt = 0]; } int32 y = 1 [(validate.rules).int32.gt = 0]; }
message M { D.N n = 1; D d = 2; }''',
 '''	want("ok", &pb.M{N: &pb.D_N{X: 1}, D: &pb.D{}}, true)
	want("nested", &pb.M{N: &pb.D_N{}}, false)''')
seed('c08-sparse-continue','C08',[(G+'map.go','''					errors = append(errors, err)
				}
			{{ end }}

			{{ render (.Key''','''					errors = append(errors, err)
					continue // the pair has no value to look at
				}
			{{ end }}

			{{ render (.Key''')],
 'a map with no_sparse and keys rules, and ValidateAll on an entry with an absent value and a bad key','ValidateAll leaves out the violations of the keys of sparse entries',
 '''message N { int32 x = 1; }
message M { map<string, N> a = 1 [(validate.rules).map = {no_sparse: true, keys: {string: {min_len: 3}}}]; }''',
 '''	want("ok", &pb.M{A: map[string]*pb.N{"abc": {}}}, true)
	want("sparse", &pb.M{A: map[string]*pb.N{"abc": nil}}, false)
	if all := (&pb.M{A: map[string]*pb.N{"ab": nil}}).ValidateAll().(pb.MMultiError).AllErrors(); len(all) != 2 {
		fail("both the key and the value are wrong, got", len(all), "errors")
	}''')
seed('c14-item-cause','C14',[(G+'register.go','''	if cause != "nil" && cause != "" {''','''	if cause != "nil" && cause != "" && idx == "" && ctx.Index == "" {''')],
 'a list or map of messages with an invalid element, and a look at Cause() of the error','the errors of list items and map values lose their cause',
 '''message N { int32 x = 1 [(validate.rules).int32.gt = 0]; }
message M { repeated N a = 1; N b = 2; }''',
 '''	for _, m := range []*pb.M{{B: &pb.N{}}, {A: []*pb.N{{}}}} {
		err := m.Validate().(pb.MValidationError)
		if _, ok := err.Cause().(pb.NValidationError); !ok {
			fail(err, "has cause", err.Cause())
		}
	}''')
seed('c14-validateall-nested','C14',[('templates/go/message.go','''				case interface{ ValidateAll() error }:
					if err := v.ValidateAll(); err != nil {
						errors = append(errors, {{ errCause . "err" "embedded message failed validation" }})
					}
				case interface{ Validate() error }:
					{{- /* Support legacy validation for messages that were generated with a plugin version prior to existence of ValidateAll() */ -}}
					if err := v.Validate(); err != nil {
						errors = append(errors, {{ errCause . "err" "embedded message failed validation" }})
					}
''','''				case interface{ Validate() error }:
					{{- /* Support legacy validation for messages that were generated with a plugin version prior to existence of ValidateAll() */ -}}
					if err := v.Validate(); err != nil {
						errors = append(errors, {{ errCause . "err" "embedded message failed validation" }})
					}
				case interface{ ValidateAll() error }:
					if err := v.ValidateAll(); err != nil {
						errors = append(errors, {{ errCause . "err" "embedded message failed validation" }})
					}
''')],
 'ValidateAll on a message with an embedded message that violates two rules','ValidateAll reports only the first violation of each embedded message',
 '''message N { int32 x = 1 [(validate.rules).int32.gt = 0]; int32 y = 2 [(validate.rules).int32.gt = 0]; }
message M { N b = 1; }''',
 '''	err := (&pb.M{B: &pb.N{}}).ValidateAll().(pb.MMultiError)[0].(pb.MValidationError)
	if me, ok := err.Cause().(pb.NMultiError); !ok || len(me) != 2 {
		fail("cause is", err.Cause())
	}''')
DEMO15='''#!/bin/bash
# The schemas of this folder whose names start with good must be accepted,
# those that start with bad must be refused.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly CGO_ENABLED=0
go build -o "$t/protoc-gen-validate" . || exit 3
rc=0
for f in "$here"/*.proto; do
  n=$(basename "$f")
  protoc -I "$here" -I "$repo" --plugin="$t/protoc-gen-validate" --validate_out=lang=go,paths=source_relative:"$t" "$f" >"$t/log" 2>&1
  r=$?
  case "$n" in
    good*) [ $r = 0 ] || { echo "$n refused"; cat "$t/log"; rc=1; } ;;
    bad*) [ $r != 0 ] || { echo "$n accepted"; rc=1; } ;;
  esac
done
exit $rc
'''
def P(s): return '''syntax = "proto3";
package demo;
option go_package = "demo.test/demo";
import "validate/validate.proto";
'''+s+'\n'
seed('c15-affix-runes','C15',[('module/checker.go','m.Assert(utf8.RuneCountInString(r.GetSuffix()) <= max, "`suffix` length exceeds the `max_len`")','m.Assert(len(r.GetSuffix()) <= max, "`suffix` length exceeds the `max_len`")')],
 'a string rule with max_len and a suffix with multi-byte characters','a consistent rule (a suffix of max_len characters that has more bytes) is refused',
 demo=DEMO15, files={'good.proto':P('message M { string a = 1 [(validate.rules).string = {max_len: 3, suffix: "ééé"}]; }'),'bad.proto':P('message M { string a = 1 [(validate.rules).string = {max_len: 3, suffix: "éééé"}]; }')})
seed('c15-map-keys-items-only','C15',[('module/checker.go','''	m.Push("keys")
	m.CheckFieldRules(typ.Key(), r.Keys)
	m.Pop()

	m.Push("values")''','''	if typ.Element().IsEmbed() && r.Values == nil {
		return // nothing to check about the messages
	}

	m.Push("keys")
	m.CheckFieldRules(typ.Key(), r.Keys)
	m.Pop()

	m.Push("values")''')],
 'a map of messages with contradictory keys rules and no values rules','the keys rules of a map to messages are not checked',
 demo=DEMO15, files={'good.proto':P('message N {} message M { map<int32, N> a = 1 [(validate.rules).map.keys.int32 = {gt: 3, lt: 5}]; }'),'bad.proto':P('message N {} message M { map<int32, N> a = 1 [(validate.rules).map.keys.int32 = {gt: 3, gte: 5}]; }')})
seed('c10-required-items','C10',[('templates/shared/context.go','''		out.WrapperTyp = out.Typ
		out.Typ = "wrapper"
	}

	if out.Typ == "error" {
		err = fmt.Errorf("unknown rule type (%T)", rules)
	}

	return
}

func (ctx RuleContext) Unwrap''','''		out.WrapperTyp, out.MessageRules = out.Typ, nil
		out.Typ = "wrapper"
	}

	if out.Typ == "error" {
		err = fmt.Errorf("unknown rule type (%T)", rules)
	}

	return
}

func (ctx RuleContext) Unwrap''')],
 'a list of wrappers (or a map to wrappers) whose items have scalar rules and are required, with an absent item','absent wrappers in lists and maps pass message.required',
 '''import "google/protobuf/wrappers.proto";
message M { repeated google.protobuf.Int32Value a = 1 [(validate.rules).repeated.items = {message: {required: true}, int32: {gt: 0}}];
 repeated google.protobuf.Int32Value b = 2 [(validate.rules).repeated.items = {int32: {gt: 0}}]; }''',
 '''	want("set", &pb.M{A: []*wrapperspb.Int32Value{{Value: 1}}}, true)
	want("zero", &pb.M{A: []*wrapperspb.Int32Value{{Value: 0}}}, false)
	want("absent", &pb.M{A: []*wrapperspb.Int32Value{{Value: 1}, nil}}, false)
	want("absent, not required", &pb.M{B: []*wrapperspb.Int32Value{{Value: 1}, nil}}, true)''',imports='"google.golang.org/protobuf/types/known/wrapperspb"')
seed('c11-empty-type-url','C11',[(G+'any.go','if a := {{ accessor . }}; a != nil {','if a := {{ accessor . }}; a.GetTypeUrl() != "" {')],
 'an Any field with an in list that is set but has an empty type URL','an Any without a type URL passes the in list',
 '''import "google/protobuf/any.proto";
message M { google.protobuf.Any a = 1 [(validate.rules).any.in = "x/y"]; }''',
 '''	want("nil", &pb.M{}, true)
	want("in", &pb.M{A: &anypb.Any{TypeUrl: "x/y"}}, true)
	want("empty", &pb.M{A: &anypb.Any{}}, false)''',imports='"google.golang.org/protobuf/types/known/anypb"')
seed('c12-micro','C12',[(G+'register.go','''		"time.Duration(%d * time.Second + %d * time.Nanosecond)",
		dur.GetSeconds(), dur.GetNanos())''','''		"time.Duration(%d * time.Second + %d * time.Microsecond)",
		dur.GetSeconds(), dur.GetNanos()/1000)''')],
 'a duration rule whose bound is not a whole number of microseconds','the bound is truncated to microseconds',
 '''import "google/protobuf/duration.proto";
message M { google.protobuf.Duration a = 1 [(validate.rules).duration.gt = {seconds: 1, nanos: 500}]; }''',
 '''	want("below", &pb.M{A: &durationpb.Duration{Seconds: 1, Nanos: 500}}, false)
	want("above", &pb.M{A: &durationpb.Duration{Seconds: 1, Nanos: 501}}, true)''',imports='"google.golang.org/protobuf/types/known/durationpb"')
seed('c13-far-dates','C13',[(G+'timestamp.go','''					if ts.Sub(lt) >= 0 {''','''					if ts.UnixNano() >= lt.UnixNano() {''')],
 'a timestamp rule lt and a value outside the years 1678 to 2262','values whose nanosecond count overflows are compared wrongly',
 '''import "google/protobuf/timestamp.proto";
message M { google.protobuf.Timestamp a = 1 [(validate.rules).timestamp.lt = {seconds: 1000}]; }''',
 '''	want("999", &pb.M{A: &timestamppb.Timestamp{Seconds: 999}}, true)
	want("1000", &pb.M{A: &timestamppb.Timestamp{Seconds: 1000}}, false)
	for s := int64(1000); s < 250000000000; s += 1000000007 {
		want(fmt.Sprint(s), &pb.M{A: &timestamppb.Timestamp{Seconds: s}}, false)
	}''',imports='"google.golang.org/protobuf/types/known/timestamppb"')
seed('c21-nil-oneof-only','C21',[(G+'msg.go','''		if m == nil { return nil }
''','''		{{ if .NonOneOfFields }}
			if m == nil { return nil }
		{{ end }}
''')],
 'a nil message whose type has only oneof members, for example an unset field of that type','validating it panics',
 '''message N { oneof o { int32 x = 1; int32 y = 2; } }
message M { N b = 1; }''',
 '''	want("unset", &pb.M{}, true)
	want("nil", (*pb.N)(nil), true)''')
seed('c16-needs-oneof','C16',[('templates/shared/well_known.go','''	for _, f := range m.Fields() {''','''	for _, f := range m.NonOneOfFields() {''')],
 'an email, hostname, address or uuid rule on a oneof member, and on no other field of the message','the generated code calls a helper that is not generated and does not compile',
 'message M { oneof o { string a = 1 [(validate.rules).string.email = true]; int32 b = 2; } }',
 '''	want("ok", &pb.M{O: &pb.M_A{A: "a@b.c"}}, true)
	want("bad", &pb.M{O: &pb.M_A{A: "a"}}, false)''')
PDEMO='''#!/bin/bash
# Runs protoc with the plugin on the .proto files beside it (run in /repo after
# the build).
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/p" "$t/a" "$t/b"
cp "$here"/*.proto "$t/p/" || exit 3
export GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=0
GOFLAGS=-mod=readonly go build -o "$t/protoc-gen-validate" . || exit 3
gen() { protoc -I "$t/p" -I "$repo" --plugin="$t/protoc-gen-validate" "$@" || { echo "generation failed"; exit 1; }; }
'''
seed('c17-needs-memo','C17',[('templates/shared/well_known.go','''// Needs returns true''','''// needed remembers the answers: the templates ask again and again.
var needed = map[string]bool{}

// Needs returns true'''),('templates/shared/well_known.go','''func Needs(m pgs.Message, wk WellKnown) bool {

''','''func Needs(m pgs.Message, wk WellKnown) (need bool) {
	key := string(wk) + m.Name().String()
	if v, ok := needed[key]; ok {
		return v
	}
	defer func() { needed[key] = need }()

''')],
 'two files generated by the same run with messages of the same name, of which only one needs a helper','whether the code of a message has the helper depends on what was generated before it',
 demo=PDEMO+'''gen --validate_out=lang=go,paths=source_relative:"$t/a" a.proto b.proto
gen --validate_out=lang=go,paths=source_relative:"$t/b" a.proto
gen --validate_out=lang=go,paths=source_relative:"$t/b" b.proto
diff -r "$t/a" "$t/b" > "$t/diff" && exit 0
echo "a.proto and b.proto generated together differ from each alone:"; head -5 "$t/diff"; exit 1
''',files={'a.proto':'syntax = "proto3";\npackage a;\noption go_package = "demo.test/a";\nimport "validate/validate.proto";\nmessage M { string s = 1 [(validate.rules).string.email = true]; }\n',
'b.proto':'syntax = "proto3";\npackage b;\noption go_package = "demo.test/b";\nimport "validate/validate.proto";\nmessage M { string s = 1 [(validate.rules).string.min_len = 1]; }\n'})
seed('c17-java-service','C17',[('templates/java/register.go','''	for _, service := range file.Services() {
		if service.Name().String() == outerClassName {
			conflict = true
		}
	}

''','')],
 'a file whose Java class name is that of a service in it','the validator class is not named after the class of the file, to which protoc appends OuterClass, and is never found',
 demo=PDEMO+'''gen --validate_out=lang=java:"$t/a" --java_out="$t/b" greeter.proto
[ -f "$t/b/g/GreeterOuterClass.java" ] || exit 3
[ -f "$t/a/g/GreeterOuterClassValidator.java" ] && exit 0
echo "no validator for GreeterOuterClass:"; find "$t/a" -type f; exit 1
''',files={'greeter.proto':'syntax = "proto3";\npackage g;\nimport "validate/validate.proto";\nmessage Hello { string s = 1 [(validate.rules).string.min_len = 1]; }\nservice Greeter { rpc Do (Hello) returns (Hello); }\n'})
