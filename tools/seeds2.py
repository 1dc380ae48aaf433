import sys; sys.path.insert(0,'/tmp/sd'); sys.path.insert(0,'/verif/tools')
from seedlib import seed
CC=open('/verif/tools/ccdemo.sh').read()
PROTO='''syntax = "proto3";
package demo;
import "validate/validate.proto";
%s
'''
MAIN='''#include <cstdio>
#include "demo.pb.validate.h"
using namespace demo;
static bool bad = false;
template <class T> void want(const char* name, const T& m, bool ok) {
  std::string err;
  bool got;
  try {
    got = Validate(m, &err);
  } catch (const std::exception& e) {
    printf("%%s: throws %%s\\n", name, e.what());
    bad = true;
    return;
  }
  if (got != ok) {
    printf("%%s: valid=%%d, want %%d\\n", name, got, ok);
    bad = true;
  }
}
int main() {
%s
  return bad;
}
'''
def cc(id,prop,edits,needs,breaks,proto,body,inc=''):
    if len(sys.argv)>1 and id not in sys.argv[1:]: return
    seed(id,prop,edits,needs,breaks,demo=CC,files={'demo.proto':PROTO%proto,'main.cc.txt':inc+MAIN%body})
cc('c18-cc-ignore-empty-negative','C18',[('templates/cc/num.go','if ({{ accessor . }} != 0) {','if ({{ accessor . }} > 0) {')],
 'ignore_empty on a signed or floating-point field, and a negative value','the C++ code accepts negative values that break the rule',
 'message M { int32 a = 1 [(validate.rules).int32 = {gte: 3, ignore_empty: true}]; }',
 '''  M m;
  want("0", m, true);
  m.set_a(2); want("2", m, false);
  m.set_a(3); want("3", m, true);
  m.set_a(-1); want("-1", m, false);''')
cc('c18-cc-max-len-zero','C18',[('templates/cc/in.go','{{ else if $r.NotIn }}','{{ else if and $r.NotIn (not $r.Const) }}')] if False else
 [('templates/cc/bytes.go','''	{{ else if $r.MaxLen }}
		if ({{ accessor . }}.size() > {{ $r.GetMaxLen }}) {''','''	{{ else if $r.GetMaxLen }}
		if ({{ accessor . }}.size() > {{ $r.GetMaxLen }}) {''')],
 'max_len: 0 on bytes','the C++ code accepts bytes that are not empty',
 'message M { bytes a = 1 [(validate.rules).bytes.max_len = 0]; bytes b = 2 [(validate.rules).bytes.max_len = 1]; }',
 '''  M m;
  want("empty", m, true);
  m.set_b("x"); want("b", m, true);
  m.set_a("x"); want("a", m, false);''')
cc('c19-cc-nested-registered','C19',[('templates/cc/file.go','''{{ range .AllMessages }}
{{- if not (ignored .) -}}
{{- if not (disabled .) -}}

::pgv''','''{{ range .AllMessages }}
{{- if not (ignored .) -}}
{{- if not (or (disabled .) (not .NonOneOfFields)) -}}

::pgv''')],
 'an embedded message all of whose fields are in oneofs','its validator is not registered, so the C++ code does not descend into it',
 'message N { oneof o { option (validate.required) = true; int32 x = 1; int32 y = 2; } } message M { N n = 1; }',
 '''  M m;
  want("unset", m, true);
  m.mutable_n(); want("no member", m, false);
  m.mutable_n()->set_y(1); want("member", m, true);''')
cc('c19-cc-dur-seconds','C19',[('templates/cc/register.go','''	ad := a.AsDuration()
	bd := b.AsDuration()

	return ad > bd''','''	return a.GetSeconds() > b.GetSeconds()''')],
 'an upper and a lower bound of a duration in the same second','the C++ code takes the range for its complement',
 'message M { google.protobuf.Duration d = 1 [(validate.rules).duration = {gte: {nanos: 100}, lt: {nanos: 200}}]; }\nimport "google/protobuf/duration.proto";',
 '''  M m;
  m.mutable_d()->set_nanos(150); want("150ns", m, true);
  m.mutable_d()->set_nanos(250); want("250ns", m, false);
  m.mutable_d()->set_nanos(50); want("50ns", m, false);''')
cc('c19-cc-max-pairs-zero','C19',[('templates/cc/map.go','{{ else if $r.MaxPairs }}\n\t\t{\n','{{ else if $r.GetMaxPairs }}\n\t\t{\n')],
 'max_pairs: 0','the C++ code accepts maps that are not empty',
 'message M { map<string, int32> m = 1 [(validate.rules).map.max_pairs = 0]; map<string, int32> n = 2 [(validate.rules).map.max_pairs = 1]; }',
 '''  M m;
  want("0", m, true);
  (*m.mutable_n())["a"] = 1; want("n 1", m, true);
  (*m.mutable_n())["b"] = 1; want("n 2", m, false);
  m.clear_n();
  (*m.mutable_m())["b"] = 1; want("m 1", m, false);''')
H='''#!/bin/bash
# Calls the helpers of validate.h (run in /repo after the build).
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cp "$here/main.cc.txt" "$t/main.cc" || exit 3
g++ -std=c++14 -w -g -O1 -fsanitize=address,undefined -fno-sanitize-recover=all -I "$repo" "$t/main.cc" -o "$t/demo" -lprotobuf -lpthread || exit 3
"$t/demo"
'''
def hh(id,edits,needs,breaks,body):
    seed(id,'C20',edits,needs,breaks,demo=H,files={'main.cc.txt':'''#include <cstdio>
#include <memory>
#include "validate/validate.h"
static bool bad = false;
static void want(const char* name, long got, long want) {
  if (got != want) {
    printf("%s: %ld, want %ld\\n", name, got, want);
    bad = true;
  }
}
int main() {
'''+body+'''
  return bad;
}
'''})
hh('c20-prefix-overread',[('validate/validate.h','return search_in.compare(0, maybe_prefix.size(), maybe_prefix) == 0;','return std::equal(maybe_prefix.begin(), maybe_prefix.end(), search_in.begin());')],
 'a text shorter than the prefix that is equal to it up to its end: NUL at least, or what is in memory behind it','std::equal reads beyond the text: a buffer overflow, and "ab" has the prefix "ab\\0"',
 '''  want("abc ab", pgv::IsPrefix("ab", "abc"), 1);
  want("ab ab", pgv::IsPrefix("ab", "ab"), 1);
  want("ab ac", pgv::IsPrefix("ab", "ac"), 0);
  want("ab NUL", pgv::IsPrefix(std::string("ab\\0", 3), "ab"), 0);
  std::string q(40, 'q');
  want("q", pgv::IsPrefix(q + "q", q), 0);''')
hh('c20-suffix-equal',[('validate/validate.h','maybe_suffix.size() <= search_in.size() && search_in.compare(search_in.size() - maybe_suffix.size(), maybe_suffix.size(), maybe_suffix) == 0','search_in.rfind(maybe_suffix) == search_in.size() - maybe_suffix.size()')],
 'a text one shorter than the suffix','npos is size - suffix size there: IsSuffix accepts the text',
 '''  want("ab ab", pgv::IsSuffix("ab", "ab"), 1);
  want("ab xab", pgv::IsSuffix("ab", "xab"), 1);
  want("ab xb", pgv::IsSuffix("ab", "xb"), 0);
  want("ab b", pgv::IsSuffix("ab", "b"), 0);
  want("ab (empty)", pgv::IsSuffix("ab", ""), 0);''')
hh('c20-utf16',[('validate/validate.h','    ++unicode_len;','    unicode_len += char_len > 3 ? 2 : 1;')],
 'a character beyond the basic multilingual plane','Utf8Len counts it as two',
 '''  want("abc", pgv::Utf8Len("abc"), 3);
  want("e acute", pgv::Utf8Len("\\xc3\\xa9"), 1);
  want("euro", pgv::Utf8Len("\\xe2\\x82\\xac"), 1);
  want("smile", pgv::Utf8Len("\\xf0\\x9f\\x98\\x80"), 1);''')
