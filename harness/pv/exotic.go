package pv

import (
	"fmt"
	"strings"
)

// World is a set of .proto files of a few Go packages with unusual names and
// structure. Its files live in the directory Dir of the workspace.
type World struct {
	Schema *Schema
	Dir    string
}

var exoticDirs = []string{"m", "item", "err", "string", "all", "val", "api", "foo/v1", "bar/v1", "time", "errors", "my-pkg", "type", "v1.2", "Upper", "strings", "bytes", "a/b/c/d", "url", "regexp", "anypb", "utf8", "fmt", "func", "foo_bar", "1st", "mail", "net", "validate", "durationpb"}
var exoticNames = []string{"m", "idx", "v", "int32", "len", "time", "errors", "foo", "v1", "strings", "mail", "anypb", "x_y", "fmt", "bar", "net", "url", "utf8", "bytes", "regexp"}
var exoticFiles = []string{"a", "foo.bar", "foo-bar", "Foo", "fooBar", "foo_bar", "v1", "v_1", "1", "type", "validate", "uuid", "foo1", "foo_1", "x.pb", "HTTPServer", "foo2bar", "ABCTest", "x__y"}
var exoticMsgs = []string{"Foo", "foo", "foo_bar", "Bar", "FooBar", "Foo_Baz", "type", "func", "String", "error", "Any", "Duration", "time", "errors", "M1", "Message_", "_x", "X", "HTTPServer", "a", "Errors", "Regexp", "Bytes", "Url", "Utf8", "Mail", "Anypb", "validate", "Validator", "Time", "Validate", "map", "interface", "nil", "true", "len", "Int32Value", "Timestamp", "a1b", "a_1", "Z9", "package", "import", "go", "enum", "option", "Integer", "Long", "Object", "Class", "Override", "Baz", "Foo_Validator", "std", "pgv", "re2", "google", "io", "Double", "Enum_", "List", "Map", "Pattern", "Status", "set"}
var exoticFields = []string{"reset", "string", "descriptor", "marshal", "proto_message", "get_foo", "foo", "type", "func", "m", "all", "err", "errors", "error", "v", "val", "key", "item", "idx", "wrapper", "name", "size", "a__b", "_a", "a_", "fooBar", "FOO", "foo_1", "foo1", "x_y_z", "field", "cause", "reason", "ts", "now", "dur", "within", "uri", "ip", "lt", "gt", "Validate2", "range", "map", "nil", "len", "extension_map", "email", "host", "uuid", "addr", "i", "bytes", "time", "fmt", "net", "a1b2", "X", "x", "URL", "get", "is_valid", "enum", "message", "package", "option", "rpc", "value", "error_name", "all_errors", "unmarshal", "size_cache", "unknown_fields", "state", "foo_count", "foo_list", "foo_case", "Foo", "class", "cached_size", "serialized_size", "item_count", "clear_foo", "has_foo", "foo_key", "foo__in", "std", "re2", "pgv", "google", "io", "com", "java", "proto", "index", "wrapped", "mutable_foo", "set_foo", "pattern"}
var exoticEnums = []string{"Kind", "kind", "Color_", "type", "E", "err", "Status", "status_code", "Value", "time", "errors", "_E", "a1"}

type exEnum struct {
	full   string
	e      *Enum
	file   int
	proto2 bool
}
type exMsg struct {
	full string
	file int
	m    *Msg
}

// NewWorld draws a world; n makes its names unique.
func NewWorld(seed int64, n int) *World { return NewWorldFor(seed, n, "go") }

// NewWorldFor draws a world for the generator of another language.
func NewWorldFor(seed int64, n int, lang string) *World {
	b := NewB(seed)
	g := b.g
	b.cc, g.CC = lang == "cc", lang == "cc"
	b.java, g.Java = lang == "java", lang == "java"
	exoticFiles, exoticMsgs, exoticFields := exoticFiles, exoticMsgs, exoticFields
	if b.cc { // nor C++
		exoticFields = without(exoticFields, "descriptor", "unknown_fields", "cached_size", "has_foo", "clear_foo", "mutable_foo", "set_foo", "std")
		exoticMsgs = without(exoticMsgs, "std", "Validate", "a", "google")
	}
	if b.java { // not what protoc --java_out makes no Java of
		exoticFiles = without(exoticFiles, "1")
		exoticMsgs = without(exoticMsgs, "true", "package", "import", "enum", "interface")
		exoticFields = without(exoticFields, "descriptor", "com", "java")
	}
	w := &World{Schema: b.s, Dir: fmt.Sprintf("x%d", n)}
	var enums []exEnum
	var msgs []exMsg
	enumMap := map[string]*Enum{}
	h := &helper{enums: enumMap}
	nf := 0
	usedDir := map[string]bool{}
	pkgOf := map[int]int{} // file index -> Go package index
	imports := map[int]map[int]bool{}
	globalNames := map[string]bool{}
	public := g.P(25) // protoc-gen-go declares publicly imported names again
	goNames := map[string]bool{}
	for p := 0; p < 1+g.Intn(3); p++ {
		dir := pick(g, exoticDirs)
		if usedDir[dir] {
			continue
		}
		usedDir[dir] = true
		goName := ""
		if g.P(30) {
			goName = ";" + pick(g, exoticNames)
		}
		protoPkg := fmt.Sprintf("x%d", n) + pick(g, []string{"", ".foo", ".foo.v1", ".time", ".a.b.c", ".type", ".Upper", ".google.protobuf", ".validate", ".errors", "_y"})
		if g.P(12) {
			protoPkg = ""
		}
		usedFile := map[string]bool{}
		if !public {
			goNames = map[string]bool{}
		}
		for k := 0; k < 1+g.Intn(3); k++ {
			base := pick(g, exoticFiles)
			ident := strings.ToLower(strings.NewReplacer(".", "_", "-", "_").Replace(base))
			if usedFile[ident] {
				continue
			}
			usedFile[ident] = true
			f := &File{Name: w.Dir + "/" + dir + "/" + base + ".proto", Pkg: protoPkg, GoPkg: "verifgen/" + w.Dir + "/" + dir + goName, Dot: true, Syntax: pick(g, []string{"proto3", "proto3", "proto3", "proto2"})}
			if g.P(15) && protoPkg != "" {
				f.Pkg += ".sub" + fmt.Sprint(k)
			}
			b.s.Files = append(b.s.Files, f)
			b.f = f
			b.helpers[f.Pkg] = h
			idx := nf
			nf++
			pkgOf[idx] = p
			imports[idx] = map[int]bool{}
			if idx > 0 && g.P(70) {
				for j := 0; j < idx; j++ {
					if g.P(60) {
						imports[idx][j] = true
						if public && g.P(30) {
							f.Public = append(f.Public, b.s.Files[j].Name)
						} else {
							f.Imports = append(f.Imports, b.s.Files[j].Name)
						}
					}
				}
			}
			// names of the scope of the proto package, and of the Go package
			scopeName := func(pool []string) string {
				for i := 0; ; i++ {
					s := pick(g, pool)
					if f.Pkg == "" {
						s += fmt.Sprintf("W%d", n)
					}
					if i > 15 {
						s += fmt.Sprint("N", i)
					}
					if !strings.Contains(f.Pkg, ".") && strings.Contains(" foo time a type Upper google validate errors ", " "+s+" ") {
						continue // may be a package
					}
					if goNames[GoName(s)] || globalNames[f.Pkg+"."+s] {
						continue
					}
					goNames[GoName(s)] = true
					globalNames[f.Pkg+"."+s] = true
					return s
				}
			}
			if g.P(8) {
				// a file without messages
				if g.P(60) {
					e := g.Enum(scopeName(exoticEnums))
					uniqueVals(e, f, n, len(enums), "")
					f.Enums = append(f.Enums, e)
					enums = append(enums, exEnum{join(f.Pkg, e.Name), e, idx, f.Syntax == "proto2"})
					enumMap[join(f.Pkg, e.Name)] = e
				}
				f.NoPgv = g.P(50)
				continue
			}
			for i := g.Intn(3); i > 0; i-- {
				e := g.Enum(scopeName(exoticEnums))
				uniqueVals(e, f, n, len(enums), "")
				f.Enums = append(f.Enums, e)
				enums = append(enums, exEnum{join(f.Pkg, e.Name), e, idx, f.Syntax == "proto2"})
				enumMap[join(f.Pkg, e.Name)] = e
			}
			// the skeleton of messages, then their fields
			var all []exMsg
			var mk func(prefix string, depth int, name func([]string) string) *Msg
			mk = func(prefix string, depth int, name func([]string) string) *Msg {
				m := &Msg{Name: name(exoticMsgs), Tag: "exotic " + f.Syntax}
				full := join(prefix, m.Name)
				switch g.Intn(14) {
				case 0:
					m.Disabled = true
				case 1:
					m.Ignored = true
				case 2:
					if g.P(30) {
						m.Disabled, m.Ignored = true, true
					}
				}
				all = append(all, exMsg{full, idx, m})
				inner := map[string]bool{}
				iname := func(pool []string) string {
					for i := 0; ; i++ {
						s := pick(g, pool)
						if i > 15 {
							s += fmt.Sprint("N", i)
						}
						if inner[GoName(s)] {
							continue
						}
						inner[GoName(s)] = true
						return s
					}
				}
				if depth < 3 && g.P(35) {
					for i := 1 + g.Intn(2); i > 0; i-- {
						m.Msgs = append(m.Msgs, mk(full, depth+1, iname))
					}
				}
				if g.P(20) {
					e := g.Enum(iname(exoticEnums))
					uniqueVals(e, f, n, len(enums), "IN")
					m.Enums = append(m.Enums, e)
					enums = append(enums, exEnum{full + "." + e.Name, e, idx, f.Syntax == "proto2"})
					enumMap[full+"."+e.Name] = e
				}
				return m
			}
			for i := 1 + g.Intn(4); i > 0; i-- {
				f.Msgs = append(f.Msgs, mk(f.Pkg, 0, scopeName))
			}
			msgs = append(msgs, all...)
			visible := func(j int) bool { return j == idx || imports[idx][j] }
			anyRules := false
			meet := map[*Msg]string{}
			for _, em := range all {
				b.m = em.m
				names := map[string]bool{}
				hidden := map[string]bool{}
				for _, c := range em.m.Msgs {
					hidden[c.Name] = true
				}
				for _, e := range em.m.Enums {
					hidden[e.Name] = true
				}
				fname := func() string {
					for {
						s := pick(g, exoticFields)
						if hidden[s] || hidden["_"+s] {
							continue
						}
						c := GoName(s)
						if f.Syntax == "proto2" && (b.java || b.cc) {
							// only C++ and Java have to have different names for them
							if c = s; b.cc {
								c = strings.ToLower(s)
							}
							if names[c] {
								continue
							}
							names[c] = true
							return s
						}
						if names[c] || names["j"+jsonName(s)] {
							continue
						}
						names[c], names["j"+jsonName(s)] = true, true
						return s
					}
				}
				// fields whose names begin like those of an inner message go on:
				// constants named by both must not meet
				plain := func(name string) bool {
					if c := GoName(name); hidden[name] || hidden["_"+name] || names[c] || names["j"+jsonName(name)] {
						return false
					}
					names[GoName(name)], names["j"+jsonName(name)] = true, true
					fl := &Field{Name: name, Kind: pick(g, []string{"int32", "string"})}
					for fl.Rules = b.valueRules(fl, false, false); fl.Rules == nil || len(fl.Rules.In)+len(fl.Rules.NotIn) == 0; {
						fl.Rules = b.valueRules(fl, false, false)
					}
					b.add(fl)
					anyRules = true
					return true
				}
				if x := meet[em.m]; x != "" {
					plain(x)
				}
				if len(em.m.Msgs) > 0 && !f.NoPgv && g.P(40) {
					c, x := pick(g, em.m.Msgs), pick(g, []string{"X", "URL", "Foo", "FOO", "key", "v", "_a"})
					if plain(c.Name + "_" + x) {
						meet[c] = x
					}
				}
				field := func(inOneof bool) *Field {
					fl := &Field{Name: fname(), Kind: pick(g, scalarKinds)}
					if g.P(35) {
						fl.Kind = "message"
					} else if g.P(20) {
						fl.Kind = "enum"
					}
					switch fl.Kind {
					case "enum":
						var c []exEnum
						for _, e := range enums {
							if visible(e.file) && (f.Syntax == "proto2" || !e.proto2) {
								c = append(c, e)
							}
						}
						if len(c) == 0 {
							fl.Kind = "int32"
						} else {
							fl.TypeName = pick(g, c).full
						}
					case "message":
						switch g.Intn(4) {
						case 0:
							fl.TypeName = pick(g, msgKinds)
						case 1:
							fl.TypeName = wrapperOf[pick(g, wrapperKinds)]
						default:
							var c []exMsg
							for _, m := range msgs {
								if visible(m.file) {
									c = append(c, m)
								}
							}
							fl.TypeName = pick(g, c).full
						}
					}
					if !inOneof {
						switch g.Intn(5) {
						case 0:
							fl.Card = "repeated"
						case 1:
							fl.Card, fl.KeyKind = "map", pick(g, mapKeyKinds)
						case 2:
							if f.Syntax == "proto3" {
								fl.Opt = true
							} else if g.P(50) && fl.Kind != "message" {
								fl.Card = "required2"
							}
						}
					}
					if !f.NoPgv && g.P(75) {
						fl.Rules = b.rulesFor(fl)
						anyRules = anyRules || fl.Rules != nil
					}
					if g.P(8) {
						fl.Extra = append(fl.Extra, "deprecated = true")
					}
					if fl.Card == "map" && fl.Kind == "enum" {
						for _, e := range enums {
							if e.full == fl.TypeName && e.proto2 { // their first value is not 0
								fl.Card = "repeated"
								fl.Rules = nil
							}
						}
					}
					if f.Syntax == "proto2" && fl.Card != "repeated" && fl.Card != "map" && fl.Kind != "message" && g.P(25) {
						switch {
						case fl.Kind == "enum":
							fl.Extra = append(fl.Extra, "default = "+pick(g, enumMap[fl.TypeName].Vals).Name)
						case fl.Kind == "string":
							fl.Extra = append(fl.Extra, "default = "+quoteBytes([]byte(g.str(5))))
						case fl.Kind == "bytes":
							fl.Extra = append(fl.Extra, "default = "+quoteBytes(g.raw(g.Intn(4))))
						case fl.Kind == "bool":
							fl.Extra = append(fl.Extra, "default = true")
						default:
							fl.Extra = append(fl.Extra, "default = "+g.numParam(fl.Kind).text(fl.Kind))
						}
					}
					return fl
				}
				for i := g.Intn(6); i > 0; i-- {
					b.add(field(false))
				}
				for i := g.Intn(3); i > 0 && g.P(50); i-- {
					o := b.oneof(g.P(40) && !f.NoPgv)
					b.m.Oneofs[o-1].Name = fname()
					for j := 1 + g.Intn(3); j > 0; j-- {
						fl := field(true)
						fl.Oneof = o
						b.add(fl)
					}
				}
				if f.Syntax == "proto2" && !b.java && g.P(15) {
					em.m.Extra = append(em.m.Extra, "extensions 1000 to 1999;")
					ext := fmt.Sprintf("extend .%s { optional int32 ext_x%d_%d_%d = 1000 [(validate.rules).int32.gt = 3]; }", em.full, n, idx, len(f.Extra))
					if f.NoPgv {
						ext = strings.Replace(ext, " [(validate.rules).int32.gt = 3]", "", 1)
					}
					f.Extra = append(f.Extra, ext)
				}
				if g.P(6) {
					em.m.Extra = append(em.m.Extra, "reserved 500 to 510;")
				}
			}
			if !anyRules && g.P(40) {
				// validate.disabled and ignored need the import, too
				f.NoPgv = true
				f.EachMsg(func(m *Msg) {
					f.NoPgv = f.NoPgv && !m.Disabled && !m.Ignored
					for _, o := range m.Oneofs {
						f.NoPgv = f.NoPgv && !o.Required
					}
				})
				f.NoPgv = f.NoPgv && len(f.Extra) == 0
			}
			if g.P(12) {
				m := pick(g, all)
				svc := fmt.Sprintf("Svc%d%d", n, idx)
				if x := GoName("x_" + strings.NewReplacer(".", "_", "-", "_").Replace(base))[1:]; g.P(60) && protoPkg != "" && !goNames[x] && !globalNames[f.Pkg+"."+x] && (x[0] > '9') {
					// the name of the Java class of the file
					svc = x
					goNames[x], globalNames[f.Pkg+"."+x] = true, true
				}
				f.Extra = append(f.Extra, fmt.Sprintf("service %s { rpc Do (.%s) returns (stream .%s); }", svc, m.full, m.full))
			}
			if b.java {
				b.exoticJava(base)
			} else if g.P(10) {
				f.Options = append(f.Options, pick(g, []string{"deprecated = true", "optimize_for = CODE_SIZE", "java_multiple_files = true", "cc_enable_arenas = false"}))
			}
		}
	}
	return w
}

func without(l []string, not ...string) (out []string) {
	for _, s := range l {
		if !strings.Contains(" "+strings.Join(not, " ")+" ", " "+s+" ") {
			out = append(out, s)
		}
	}
	return out
}

// exoticJava gives a file Java options.
func (b *B) exoticJava(base string) {
	f, g := b.f, b.g
	if g.P(30) {
		f.Options = append(f.Options, fmt.Sprintf("java_package = %q", pick(g, []string{"com.example", "X", "io.envoyproxy", "a_b.c1", "foo", "com.google.protobuf.x", "Foo.Bar", "java_.x", ""})))
	}
	if g.P(45) {
		f.Options = append(f.Options, "java_multiple_files = true")
	} else if g.P(15) {
		f.Options = append(f.Options, "java_multiple_files = false")
	}
	if g.P(30) {
		f.Options = append(f.Options, fmt.Sprintf("java_outer_classname = %q", pick(g, []string{"Outer", "outer", "Foo", "X1", "O_", "Outer_Foo", "Validator", "Validate", "Object", "Proto", "aB1c"})))
	}
	if g.P(6) {
		f.Options = append(f.Options, pick(g, []string{"deprecated = true", "java_generate_equals_and_hash = true", "java_string_check_utf8 = true", "optimize_for = SPEED"}))
	}
}

// uniqueVals gives the values of an enum names of their own: they share the
// scope the enum is in.
func uniqueVals(e *Enum, f *File, world, n int, tag string) {
	for i := range e.Vals {
		e.Vals[i].Name = fmt.Sprintf("W%d%s_%d_%d", world, tag, n, i)
	}
	if f.Syntax == "proto2" && len(e.Vals) > 1 {
		e.Vals[0], e.Vals[1] = e.Vals[1], e.Vals[0]
	}
}

func jsonName(s string) string {
	return strings.ToLower(strings.ReplaceAll(s, "_", ""))
}

// GoName is the Go identifier of a message or field, as protoc-gen-go has it.
func GoName(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		lower := func(c byte) bool { return c >= 'a' && c <= 'z' }
		digit := func(c byte) bool { return c >= '0' && c <= '9' }
		switch {
		case c == '_' && (i == 0 || s[i-1] == '.'):
			b = append(b, 'X')
		case c == '.' && i+1 < len(s) && lower(s[i+1]):
		case c == '.':
			b = append(b, '_')
		case c == '_' && i+1 < len(s) && lower(s[i+1]):
		case digit(c):
			b = append(b, c)
		default:
			if lower(c) {
				c -= 32
			}
			b = append(b, c)
			for ; i+1 < len(s) && lower(s[i+1]); i++ {
				b = append(b, s[i+1])
			}
		}
	}
	return string(b)
}

// DropNth removes one part of the schema: a file nobody imports, a message
// nobody refers to, a field, or the rules of one. It returns false if there
// is no k-th part.
func DropNth(s *Schema, k int) bool {
	imported := map[string]bool{}
	for _, f := range s.Files {
		for _, l := range [][]string{f.Imports, f.Public} {
			for _, i := range l {
				imported[i] = true
			}
		}
	}
	for i, f := range s.Files {
		if imported[f.Name] || len(s.Files) == 1 {
			continue
		}
		if k == 0 {
			s.Files = append(s.Files[:i:i], s.Files[i+1:]...)
			return true
		}
		k--
	}
	for _, f := range s.Files {
		for _, l := range []*[]string{&f.Imports, &f.Public, &f.Extra, &f.Options} {
			for i := range *l {
				if k == 0 {
					*l = append((*l)[:i:i], (*l)[i+1:]...)
					return true
				}
				k--
			}
		}
		var rec func(l *[]*Msg) bool
		rec = func(l *[]*Msg) bool {
			for i, m := range *l {
				if k == 0 {
					*l = append((*l)[:i:i], (*l)[i+1:]...)
					return true
				}
				k--
				if rec(&m.Msgs) {
					return true
				}
				for j := range m.Enums {
					if k == 0 {
						m.Enums = append(m.Enums[:j:j], m.Enums[j+1:]...)
						return true
					}
					k--
				}
				for j, f := range m.Fields {
					if k == 0 {
						o := f.Oneof
						m.Fields = append(m.Fields[:j:j], m.Fields[j+1:]...)
						if o != 0 {
							for _, g := range m.Fields {
								if g.Oneof == o {
									return true
								}
							}
							m.Oneofs = append(m.Oneofs[:o-1:o-1], m.Oneofs[o:]...)
							for _, g := range m.Fields {
								if g.Oneof > o {
									g.Oneof--
								}
							}
						}
						return true
					}
					k--
					if f.Rules != nil {
						if k == 0 {
							f.Rules = nil
							return true
						}
						k--
					}
				}
			}
			return false
		}
		if rec(&f.Msgs) {
			return true
		}
		for j := range f.Enums {
			if k == 0 {
				f.Enums = append(f.Enums[:j:j], f.Enums[j+1:]...)
				return true
			}
			k--
		}
	}
	return false
}
