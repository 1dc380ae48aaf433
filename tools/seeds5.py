import sys; sys.path.insert(0,'/verif/tools')
from seedlib import *
V='python/protoc_gen_validate/validator.py'
def py(id,prop,edits,needs,breaks,proto,cases):
    if len(sys.argv)>1 and id not in sys.argv[1:]: return
    files={'demo.proto':'syntax = "proto3";\npackage demo;\nimport "validate/validate.proto";\n'+proto+'\n','cases.txt':cases.strip()+'\n'}
    subprocess.check_call(['tar','-C','/verif/harness/py/stub','--exclude=__pycache__','--sort=name','--mtime=2020-01-01','--owner=0','--group=0','-czf','/tmp/stub.tgz','.'])
    seed(id,prop,[(V,)+tuple(e) for e in edits],needs,breaks,demo=open('/verif/tools/pydemo.sh').read().replace('$here/stub.tgz','$here/stub.tgz'),files=files)
import seedlib
_chmod=os.chmod
def chmod(p,m):
    if p.endswith('demo.sh') and os.path.exists('/tmp/stub.tgz'): shutil.copy('/tmp/stub.tgz',os.path.dirname(p)+'/stub.tgz')
    _chmod(p,m)
os.chmod=chmod
py('c24-py-num-outside-lte-gt','C24',[("    if {{ name }} > {{ num['lte'] }} and {{ name }} <= {{ num['gt'] }}:","    if {{ name }} > {{ num['lte'] }} and {{ name }} < {{ num['gt'] }}:")],
 'a number with lte below gt and the value gt','the value at the open end of the gap is accepted','message M { int64 a = 1 [(validate.rules).int64 = {lte: 5, gt: 10}]; }',
 'M ok a: 5\nM fail a: 6\nM fail a: 10\nM ok a: 11')
py('c24-py-label-63','C24',[('''        if len(part) == 0 or len(part) > 63:''','''        if len(part) == 0 or len(part) >= 63:''')],
 'a host name with a label of 63 characters','it is refused','message M { string a = 1 [(validate.rules).string.hostname = true]; }',
 'M ok a: "%s.com"\nM ok a: "%s.com"\nM fail a: "%s.com"'%('a'*62,'a'*63,'a'*64))
py('c24-py-byte-len','C24',[("        return len(s.encode('utf-8'))","        return len(s.encode('utf-16-le')) if not s.isascii() and len(s) > 8 else len(s.encode('utf-8'))")],
 'len_bytes, min_bytes or max_bytes and a string of more than 8 runes, not all of them ASCII','its length in UTF-16 is tested','message M { string a = 1 [(validate.rules).string.max_bytes = 12]; }',
 'M ok a: "aaaaaaaaaaa"\nM ok a: "aaaaaaaaaa\\303\\251"\nM fail a: "aaaaaaaaaaa\\303\\251"')
py('c24-py-enum-gap','C24',[('''    return [x.number for x in field.enum_type.values]''','''    return list(range(min(x.number for x in field.enum_type.values), max(x.number for x in field.enum_type.values) + 1))''')],
 'an enum with a gap between its numbers','numbers in the gap count as defined','enum E { A = 0; B = 1; C = 4; } message M { E e = 1 [(validate.rules).enum.defined_only = true]; }',
 'M ok e: 1\nM ok e: 4\nM fail e: 3\nM fail e: 5')
py('c24-py-map-key-sfixed64','C24',[('''        {%- elif str(keys.sfixed64) %}
        {{- num_template(keys, 'key', keys.sfixed64)|indent(4,True) -}}''','''        {%- elif str(keys.sfixed64) and not str(values) %}
        {{- num_template(keys, 'key', keys.sfixed64)|indent(4,True) -}}''')],
 'a map with rules for sfixed64 keys and for values','the rules of the keys are ignored','message M { map<sfixed64, int32> m = 1 [(validate.rules).map = {keys: {sfixed64: {gt: 3}}, values: {int32: {lt: 9}}}]; }',
 'M ok m: {key: 4 value: 1}\nM fail m: {key: 3 value: 1}\nM fail m: {key: 4 value: 9}')
py('c27-py-cache-name','C27',[('''        return hash(self.DESCRIPTOR.full_name)''','''        return hash(self.DESCRIPTOR.name)'''),('''            return self.DESCRIPTOR.full_name == other.DESCRIPTOR.full_name''','''            return self.DESCRIPTOR.name == other.DESCRIPTOR.name''')],
 'two messages with the same last name, validated in one process','the second is validated with the rules of the first','message A { message In { int32 a = 1 [(validate.rules).int32.gt = 3]; } In x = 1; } message B { message In { int32 a = 1 [(validate.rules).int32.lt = 3]; } In x = 1; }',
 'A ok x: {a: 4}\nA fail x: {a: 3}\nB ok x: {a: 2}\nB fail x: {a: 4}')
py('c27-py-map-values-only','C27',[('''    {%- if o and (str(o.map['keys']) or str(o.map['values']))%}''','''    {%- if o and str(o.map['keys']) %}''')],
 'a map with rules for its values and none for its keys','the rules of the values are ignored','message M { map<string, int32> m = 1 [(validate.rules).map.values.int32.gt = 3]; }',
 'M ok m: {key: "a" value: 4}\nM fail m: {key: "a" value: 3}')
py('c27-py-unique-first','C27',[('''        if item in seen:
            raise ValidationFailed(\\"{{ name }} must contain unique items. %s has been repeated.\\" %item)
        else:
            seen.add(item)''','''        if item in seen:
            raise ValidationFailed(\\"{{ name }} must contain unique items. %s has been repeated.\\" %item)
        seen = {item}''')],
 'a list with two equal items that are not next to each other','it is accepted','message M { repeated int32 l = 1 [(validate.rules).repeated.unique = true]; }',
 'M ok l: 1 l: 2\nM fail l: 1 l: 1\nM fail l: 1 l: 2 l: 1')
py('c27-py-disabled-false','C27',[('''        {%- if option_descriptor.full_name == "validate.disabled" and option_value %}
    return None
        {%- elif option_descriptor.full_name == "validate.ignored" and option_value %}''','''        {%- if option_descriptor.full_name == "validate.disabled" %}
    return None
        {%- elif option_descriptor.full_name == "validate.ignored" and option_value %}''')],
 'a message with option (validate.disabled) = false','its rules are ignored','message M { option (validate.disabled) = false; int32 a = 1 [(validate.rules).int32.gt = 3]; }',
 'M ok a: 4\nM fail a: 3')
py('c27-py-any-map-values','C27',[('''    {%- elif str(accessor.any) %}
    {{- any_template(accessor, name, True)|indent(4,True) -}}''','''    {%- elif str(accessor.any) and not map %}
    {{- any_template(accessor, name, True)|indent(4,True) -}}''')],
 'a map of Any values with rules about their types','they are ignored','import "google/protobuf/any.proto"; message M { map<int32, google.protobuf.Any> m = 1 [(validate.rules).map.values.any.not_in = "x/a"]; }',
 'M ok m: {key: 1 value: {type_url: "x/b"}}\nM fail m: {key: 1 value: {type_url: "x/a"}}')
py('c27-py-oneof-skip-present','C27',[('''    if _has_field(p, \\"{{ field.name }}\\"):
        present = True
        {{ rule_type(field)|indent(4,True) }}''','''    if not present and _has_field(p, \\"{{ field.name }}\\") and p.{{ field.name }}:
        present = True
        {{ rule_type(field)|indent(4,True) }}''')],
 'a oneof whose choice is set to zero or to the empty string','it counts as not set','message M { oneof o { option (validate.required) = true; int32 a = 1 [(validate.rules).int32.lt = 3]; string s = 2 [(validate.rules).string.min_len = 1]; } }',
 'M ok a: 0\nM fail a: 3\nM fail s: ""\nM ok s: "a"\nM fail # empty')
