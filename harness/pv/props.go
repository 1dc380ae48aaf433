package pv

import (
	"fmt"
	"strings"
)

// B builds the schema of one property.
type B struct {
	g       *G
	s       *Schema
	f       *File
	m       *Msg
	n       int
	perFile int
	// Ctx restrictions of the back end
	cc, java, py bool
	helpers      map[string]*helper
}

// helper messages and enums a file's fields can refer to
type helper struct {
	leaf, other, rec, disabled, ignored, plain string // message full names
	enum, aliasEnum                            string
	enums                                      map[string]*Enum
}

func NewB(seed int64) *B {
	return &B{g: NewG(seed), s: &Schema{}, perFile: 40, helpers: map[string]*helper{}}
}

func (b *B) file() *File {
	if b.f == nil {
		i := len(b.s.Files)
		id := fmt.Sprintf("f%d", i)
		b.f = &File{Name: id + "/" + id + ".proto", Pkg: "pv." + id, GoPkg: "verifgen/" + id, Syntax: "proto3"}
		if b.g.P(20) {
			b.f.Syntax = "proto2"
		}
		if b.java {
			b.javaOptions(i)
		}
		b.s.Files = append(b.s.Files, b.f)
		b.addHelpers()
	}
	return b.f
}

func (b *B) javaOptions(i int) {
	f, g := b.f, b.g
	if g.P(30) {
		f.Options = append(f.Options, fmt.Sprintf("java_package = \"%s.f%d\"", pick(g, []string{"com.example", "x", "io.envoyproxy.a_b"}), i))
	}
	switch {
	case g.P(40):
		f.Options = append(f.Options, "java_multiple_files = true")
	case g.P(30):
		f.Options = append(f.Options, fmt.Sprintf("java_outer_classname = %q", fmt.Sprintf("Outer%d", i)))
	}
}

func (b *B) endFile() { b.f, b.m = nil, nil }

func (b *B) addHelpers() {
	f := b.f
	h := &helper{enums: map[string]*Enum{}}
	b.helpers[f.Pkg] = h
	for _, n := range []string{"Color", "Odd"} {
		e := b.g.Enum(n)
		f.Enums = append(f.Enums, e)
		h.enums[f.Pkg+"."+n] = e
	}
	h.enum, h.aliasEnum = f.Pkg+".Color", f.Pkg+".Odd"
	leaf := &Msg{Name: "Leaf", Fields: []*Field{
		{Name: "num", Num: 1, Kind: "int32", Rules: &Rules{Type: "int32", Gt: ptr(IVal(3)), Lte: ptr(IVal(10))}},
		{Name: "txt", Num: 2, Kind: "string", Rules: &Rules{Type: "string", MaxLen: P64(3)}},
	}}
	other := &Msg{Name: "Other", Fields: []*Field{
		{Name: "flag", Num: 1, Kind: "bool", Rules: &Rules{Type: "bool", Const: ptr(Val{B: true})}},
		{Name: "leaf", Num: 2, Kind: "message", TypeName: f.Pkg + ".Leaf"},
		{Name: "leaves", Num: 3, Kind: "message", TypeName: f.Pkg + ".Leaf", Card: "repeated"},
	}}
	if b.py { // looks like the entry of a map
		other.Fields[0].Name, other.Fields[1].Name, other.Fields = "key", "value", other.Fields[:2]
	}
	rec := &Msg{Name: "Rec", Fields: []*Field{
		{Name: "val", Num: 1, Kind: "uint32", Rules: &Rules{Type: "uint32", Lt: ptr(UVal(100))}},
		{Name: "next", Num: 2, Kind: "message", TypeName: f.Pkg + ".Rec"},
	}}
	dis := &Msg{Name: "Dis", Disabled: true, Fields: []*Field{
		{Name: "val", Num: 1, Kind: "uint32", Rules: &Rules{Type: "uint32", Lt: ptr(UVal(2))}},
		{Name: "leaf", Num: 2, Kind: "message", TypeName: f.Pkg + ".Leaf", Rules: &Rules{Msg: &MsgRules{Required: T()}}},
	}}
	ign := &Msg{Name: "Ign", Ignored: true, Fields: []*Field{
		{Name: "val", Num: 1, Kind: "uint32", Rules: &Rules{Type: "uint32", Lt: ptr(UVal(2))}},
	}}
	plain := &Msg{Name: "Plain", Fields: []*Field{{Name: "x", Num: 1, Kind: "int32"}, {Name: "y", Num: 2, Kind: "string"}}}
	f.Msgs = append(f.Msgs, leaf, other, rec, dis, ign, plain)
	h.leaf, h.other, h.rec, h.disabled, h.ignored, h.plain = f.Pkg+".Leaf", f.Pkg+".Other", f.Pkg+".Rec", f.Pkg+".Dis", f.Pkg+".Ign", f.Pkg+".Plain"
}

func ptr[T any](v T) *T { return &v }

func (b *B) h() *helper { b.file(); return b.helpers[b.f.Pkg] }

// msg starts a new top-level message.
func (b *B) msg(tag string) *Msg {
	if b.f != nil && len(b.f.Msgs) >= b.perFile {
		b.endFile()
	}
	b.file()
	b.n++
	b.m = &Msg{Name: fmt.Sprintf("M%d", b.n), Tag: tag}
	b.f.Msgs = append(b.f.Msgs, b.m)
	return b.m
}

func (b *B) add(f *Field) *Field {
	f.Num = len(b.m.Fields) + 1
	if f.Oneof != 0 {
		f.Opt = false
	}
	if f.Name == "" {
		f.Name = fmt.Sprintf("%s_%d", pick(b.g, []string{"val", "some_field", "x", "fooBar", "name"}), f.Num)
	}
	b.m.Fields = append(b.m.Fields, f)
	b.dups(f.Rules)
	if b.f.Syntax == "proto2" && !b.f.Dot {
		f.Opt = false
		if f.Card == "" && f.Oneof == 0 && f.Kind != "message" && b.g.P(20) {
			f.Card = "required2"
		} else if f.Card == "" && f.Kind != "message" && b.g.P(30) {
			b.defaultOf(f)
		}
	}
	return f
}

// defaultOf gives a proto2 field a default value, often one its rules are about.
func (b *B) defaultOf(f *Field) {
	g := b.g
	var ps []Val
	if f.Rules != nil {
		ps = f.Rules.allParams()
	}
	text := ""
	switch f.Kind {
	case "enum":
		e := b.helpers[b.f.Pkg].enums[f.TypeName]
		if e == nil {
			return
		}
		text = pick(g, e.Vals).Name
	case "string", "bytes":
		v := SVal(g.str(5))
		if f.Kind == "bytes" {
			v = Val{S: g.raw(g.Intn(5))}
		}
		if len(ps) > 0 && g.P(60) {
			v = pick(g, ps)
		}
		text = quoteBytes(v.S)
	case "bool":
		text = pick(g, []string{"true", "false"})
	default:
		v := g.numParam(f.Kind)
		if len(ps) > 0 && g.P(70) {
			v = pick(g, ps)
		}
		text = v.text(f.Kind)
	}
	f.Extra = append(f.Extra, "default = "+text)
}

// dups repeats a value of a list, now and then.
func (b *B) dups(r *Rules) {
	if r == nil {
		return
	}
	if len(r.In) > 0 && b.g.P(6) {
		r.In = append(r.In[:len(r.In):len(r.In)], pick(b.g, r.In))
	}
	if len(r.NotIn) > 0 && b.g.P(6) {
		r.NotIn = append(r.NotIn[:len(r.NotIn):len(r.NotIn)], pick(b.g, r.NotIn))
	}
	b.dups(r.Items)
	b.dups(r.Keys)
	b.dups(r.Values)
}

func (b *B) oneof(required bool) int {
	b.m.Oneofs = append(b.m.Oneofs, &Oneof{Name: fmt.Sprintf("choice_%d", len(b.m.Oneofs)+1), Required: required})
	return len(b.m.Oneofs)
}

// ---- rules for any kind ------------------------------------------------

var mapKeyKinds = []string{"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string"}
var scalarKinds = append(append([]string{}, numKinds...), "bool", "string", "bytes", "enum")
var msgKinds = []string{"google.protobuf.Duration", "google.protobuf.Timestamp", "google.protobuf.Any"}

// scalarRules draws rules for a scalar kind.
func (b *B) scalarRules(kind, enumName string) *Rules {
	g := b.g
	ie := 0
	if g.P(25) {
		ie = 1
	}
	switch kind {
	case "bool":
		return &Rules{Type: "bool", Const: ptr(Val{B: g.P(50)})}
	case "string":
		if g.P(40) {
			return g.FormatRules(pick(g, b.formats()), ie)
		}
		return g.StrRules(pick(g, StrShapes), ie)
	case "bytes":
		for {
			r := g.BytesRules(pick(g, BytesShapes), ie)
			if (b.cc && !g.P(20) || b.java) && r.WellKnown != "" {
				continue
			}
			return r
		}
	case "enum":
		return g.EnumRules(b.h().enums[enumName], pick(g, EnumShapes))
	}
	return g.NumRules(kind, pick(g, NumShapes), ie)
}

func (b *B) formats() []string {
	if !b.cc || b.g.P(10) { // some that C++ refuses
		return FormatShapes
	}
	var out []string
	for _, s := range FormatShapes {
		if s == "uri" || s == "uri_ref" || strings.HasPrefix(s, "email") {
			continue
		}
		out = append(out, s)
	}
	return out
}

// elemOK: rules that are generated for list items and map entries. The C++ and
// Java back ends have lists of values only for string and enum items.
func (b *B) elemOK(r *Rules, mapped bool) bool {
	if r == nil || b.full() {
		return true
	}
	if len(r.In) > 0 || len(r.NotIn) > 0 {
		if mapped || r.Type != "string" && r.Type != "enum" {
			return false
		}
	}
	if r.Type == "bytes" && r.Pattern != nil {
		return false
	}
	return true
}

// full: the back end has every rule everywhere.
func (b *B) full() bool { return true }

func (b *B) elemRules(kind, enumName string, mapped bool) *Rules {
	for {
		r := b.scalarRules(kind, enumName)
		if b.elemOK(r, mapped) {
			return r
		}
	}
}

func (b *B) wktRules(typeName string) *Rules {
	g := b.g
	switch typeName {
	case "google.protobuf.Duration":
		return g.DurRules(pick(g, NumShapes))
	case "google.protobuf.Timestamp":
		return g.TsRules(pick(g, TsShapes))
	case "google.protobuf.Any":
		return b.anyRules(pick(g, []string{"in", "not_in", "none"}))
	}
	k := wrappedKind(typeName)
	r := b.scalarRules(k, "")
	if k == "bytes" && !b.full() {
		for len(r.In) > 0 || len(r.NotIn) > 0 {
			r = b.scalarRules(k, "")
		}
	}
	if g.P(30) {
		r.Msg = &MsgRules{Required: T()}
	}
	return r
}

func (b *B) anyRules(shape string) *Rules {
	g := b.g
	r := &Rules{Type: "any"}
	list := func() []Val {
		return g.strList(func() string {
			if g.P(70) {
				return pick(g, anyURLs)
			}
			return g.str(8)
		})
	}
	switch shape {
	case "in":
		r.In = list()
	case "not_in":
		r.NotIn = list()
	}
	if g.P(35) || shape == "required" {
		r.Required = T()
	}
	return r
}

func (b *B) msgRules() *Rules {
	g := b.g
	switch g.Intn(6) {
	case 0:
		return &Rules{Msg: &MsgRules{Required: T()}}
	case 1:
		return &Rules{Msg: &MsgRules{Skip: T()}}
	case 2:
		return &Rules{Msg: &MsgRules{Required: T(), Skip: T()}}
	case 3:
		return &Rules{Msg: &MsgRules{Required: Fa(), Skip: Fa()}}
	}
	return nil
}

// anyField draws a field of any type and cardinality.
func (b *B) anyField() *Field {
	g := b.g
	f := &Field{}
	f.Kind = pick(g, scalarKinds)
	if g.P(45) {
		f.Kind = "message"
	}
	h := b.h()
	switch f.Kind {
	case "enum":
		f.TypeName = pick(g, []string{h.enum, h.aliasEnum})
	case "message":
		switch g.Intn(10) {
		case 0, 1, 2:
			f.TypeName = pick(g, msgKinds)
		case 3, 4:
			f.TypeName = wrapperOf[pick(g, wrapperKinds)]
		default:
			f.TypeName = pick(g, []string{h.leaf, h.other, h.rec, h.disabled, h.ignored, h.plain})
		}
	}
	switch g.Intn(5) {
	case 0:
		f.Card = "repeated"
	case 1:
		f.Card = "map"
		f.KeyKind = pick(g, mapKeyKinds)
	}
	f.Rules = b.rulesFor(f)
	if f.Card == "" && g.P(25) && b.f.Syntax == "proto3" {
		f.Opt = true
	}
	return f
}

func isWKT(name string) bool { return strings.HasPrefix(name, "google.protobuf.") }

// valueRules draws rules for one value of the field's type, nil for none.
func (b *B) valueRules(f *Field, elem, mapped bool) *Rules {
	g := b.g
	if f.Kind == "message" {
		if isWKT(f.TypeName) {
			for {
				r := b.wktRules(f.TypeName)
				if elem && !b.elemMsgOK(f.TypeName, r, mapped) {
					continue
				}
				return r
			}
		}
		return b.msgRules()
	}
	if elem {
		return b.elemRules(f.Kind, f.TypeName, mapped)
	}
	_ = g
	return b.scalarRules(f.Kind, f.TypeName)
}

// elemMsgOK: see elemOK.
func (b *B) elemMsgOK(typeName string, r *Rules, mapped bool) bool {
	if b.full() {
		return true
	}
	if wrappedKind(typeName) != "" {
		return b.elemOK(r, mapped)
	}
	return len(r.In) == 0 && len(r.NotIn) == 0
}

func (b *B) rulesFor(f *Field) *Rules {
	g := b.g
	switch f.Card {
	case "repeated":
		if f.Kind == "message" && wrappedKind(f.TypeName) != "" && !WrapperItems {
			f.TypeName = "google.protobuf.Duration"
		}
		r := b.sizeRules("repeated")
		if f.Kind != "message" && g.P(30) {
			r.Unique = T()
		}
		if g.P(75) {
			r.Items = b.valueRules(f, true, false)
		}
		if r.Min == nil && r.Max == nil && r.Items == nil && r.Unique == nil && r.IgnoreEmpty == nil && g.P(50) {
			return nil
		}
		return r
	case "map":
		if f.Kind == "message" && wrappedKind(f.TypeName) != "" && !WrapperItems {
			f.TypeName = "google.protobuf.Duration"
		}
		r := b.sizeRules("map")
		if f.Kind == "message" && g.P(35) && !b.cc {
			r.NoSparse = T()
		}
		if g.P(60) {
			r.Keys = b.elemRules(f.KeyKind, "", true)
		}
		if g.P(70) {
			for {
				r.Values = b.valueRules(f, true, true)
				if b.full() || r.Values == nil || r.Keys == nil || !hasPattern(r.Keys) || !hasPattern(r.Values) {
					break
				}
			}
		}
		if r.Min == nil && r.Max == nil && r.Keys == nil && r.Values == nil && r.NoSparse == nil && r.IgnoreEmpty == nil && g.P(50) {
			return nil
		}
		return r
	}
	if g.P(12) {
		return nil
	}
	return b.valueRules(f, false, false)
}

func hasPattern(r *Rules) bool { return r.Pattern != nil || r.WKRegex != "" }

// WrapperItems: rules on repeated wrapper messages.
var WrapperItems = true

func (b *B) sizeRules(typ string) *Rules {
	g := b.g
	r := &Rules{Type: typ}
	switch g.Intn(7) {
	case 0:
		r.Min = P64(uint64(g.Intn(4)))
	case 1:
		r.Max = P64(uint64(g.Intn(4)))
	case 2:
		a := uint64(g.Intn(3))
		r.Min, r.Max = P64(a), P64(a+1+uint64(g.Intn(3)))
	case 3:
		a := uint64(g.Intn(4))
		r.Min, r.Max = P64(a), P64(a)
	}
	if g.P(25) {
		r.IgnoreEmpty = T()
	}
	return r
}

// place puts value rules into one of the contexts a value can be in.
func (b *B) place(kind, typeName string, r *Rules, ctx string) *Field {
	f := &Field{Kind: kind, TypeName: typeName, Rules: r}
	switch ctx {
	case "items":
		f.Card = "repeated"
		f.Rules = &Rules{Type: "repeated"}
		if b.g.P(25) {
			f.Rules = b.sizeRules("repeated")
		}
		f.Rules.Items = r
	case "values":
		f.Card, f.KeyKind = "map", pick(b.g, mapKeyKinds)
		f.Rules = &Rules{Type: "map"}
		if b.g.P(25) {
			f.Rules = b.sizeRules("map")
		}
		if b.g.P(15) {
			f.Rules.Keys = b.elemRules(f.KeyKind, "", true)
		}
		if f.Rules.Keys != nil && hasPattern(f.Rules.Keys) && hasPattern(r) && !b.full() {
			f.Rules.Keys = nil
		}
		f.Rules.Values = r
	case "keys":
		f.Card, f.KeyKind = "map", kind
		f.Kind, f.TypeName = "int32", ""
		if b.g.P(50) {
			h := b.h()
			f.Kind, f.TypeName = "message", pick(b.g, []string{h.leaf, h.plain, h.disabled, h.ignored, h.rec, "google.protobuf.Duration", "google.protobuf.StringValue", "google.protobuf.Any"})
		} else if b.g.P(50) {
			f.Kind, f.TypeName = "enum", b.h().enum
		}
		f.Rules = &Rules{Type: "map"}
		if b.g.P(40) {
			f.Rules = b.sizeRules("map")
			if f.Kind == "message" && b.g.P(30) && !b.cc {
				f.Rules.NoSparse = T()
			}
			if b.g.P(30) {
				f.Rules.Values = b.valueRules(f, true, true)
			}
		}
		if f.Rules.Values != nil && hasPattern(f.Rules.Values) && hasPattern(r) && !b.full() {
			f.Rules.Values = nil
		}
		f.Rules.Keys = r
	case "oneof":
		f.Oneof = b.oneof(b.g.P(30))
		b.add(f)
		return b.add(&Field{Kind: "int32", Oneof: f.Oneof})
	}
	if ctx == "" && b.g.P(12) && b.f.Syntax == "proto3" {
		f.Opt = true
	}
	return b.add(f)
}

// spread places a list of rules into messages of a few fields.
func (b *B) spread(tag func(i int) string, n, per int, mk func(i int)) {
	for i := 0; i < n; i++ {
		if b.m == nil || len(b.m.Fields) >= per || b.m.Tag == "" {
			b.msg(tag(i))
		}
		mk(i)
	}
	b.m = nil
}

// ---- properties ----------------------------------------------------------

// BuildSchema makes the schema a property is checked on. scale multiplies its
// random part.
func BuildSchema(prop string, seed int64, scale int) *Schema {
	return buildSchema(NewB(seed), prop, scale)
}

// BuildCC makes a schema for the C++ back end.
func BuildCC(prop string, seed int64, scale int) *Schema {
	b := NewB(seed)
	b.cc, b.g.CC = true, true
	return buildSchema(b, prop, scale)
}

// BuildJava makes a schema for the Java back end.
func BuildJava(prop string, seed int64, scale int) *Schema {
	b := NewB(seed)
	b.java, b.g.Java = true, true
	return buildSchema(b, prop, scale)
}

// BuildPy makes a schema for the Python validator.
func BuildPy(prop string, seed int64, scale int) *Schema {
	b := NewB(seed)
	b.py, b.g.Py = true, true
	return buildSchema(b, prop, scale)
}

func buildSchema(b *B, prop string, scale int) *Schema {
	g := b.g
	switch prop {
	case "numbers":
		for rep := 0; rep < scale; rep++ {
			type c struct {
				kind, shape string
				ie          int
			}
			var l []c
			for _, k := range numKinds {
				for _, s := range NumShapes {
					l = append(l, c{k, s, 0}, c{k, s, 1})
				}
				l = append(l, c{k, pick(g, NumShapes), 2})
			}
			g.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
			b.spread(func(i int) string { return "singular" }, len(l), 3, func(i int) {
				b.place(l[i].kind, "", g.NumRules(l[i].kind, l[i].shape, l[i].ie), "")
			})
			for _, ctx := range []string{"oneof", "items", "values", "keys"} {
				for i, k := range numKinds {
					if ctx == "keys" && i < 2 {
						continue
					}
					for j := 0; j < 3; j++ {
						b.msg(ctx)
						r := b.elemRules(k, "", ctx != "items")
						b.place(k, "", r, ctx)
					}
				}
			}
		}
	case "strings":
		b.values("string", "", scale*3, func(shape string, ie int) *Rules { return g.StrRules(shape, ie) }, StrShapes)
	case "formats":
		b.values("string", "", scale*2, func(shape string, ie int) *Rules { return g.FormatRules(shape, ie) }, FormatShapes)
		b.nestedFormats(scale)
	case "bytes":
		b.values("bytes", "", scale*3, func(shape string, ie int) *Rules { return g.BytesRules(shape, ie) }, BytesShapes)
	case "enums":
		b.enums(scale)
	case "messages":
		b.messages(scale)
	case "repeated":
		b.containers("repeated", scale)
	case "maps":
		b.containers("map", scale)
	case "oneofs":
		for i := 0; i < 70*scale; i++ {
			b.msg("oneof")
			for k := 0; k < 1+g.Intn(2); k++ {
				o := b.oneof(g.P(60))
				for j := 0; j < 1+g.Intn(4); j++ {
					f := b.anyField()
					for f.Card != "" {
						f = b.anyField()
					}
					f.Oneof = o
					b.add(f)
				}
			}
			if g.P(50) {
				b.add(b.anyField())
			}
		}
	case "wrappers":
		for rep := 0; rep < scale; rep++ {
			for _, k := range wrapperKinds {
				n := 14
				if k == "string" {
					n = 24
				}
				for i := 0; i < n; i++ {
					b.msg("wrapper " + k)
					r := b.wktRules(wrapperOf[k])
					if g.P(8) {
						r = pick(g, []*Rules{nil, {Msg: &MsgRules{Required: T()}}, {Msg: &MsgRules{Skip: T()}}})
					}
					ctx := ""
					if g.P(20) {
						ctx = "oneof"
					}
					b.place("message", wrapperOf[k], r, ctx)
				}
				if WrapperItems {
					for _, ctx := range []string{"items", "values", "values", "items"} {
						b.msg("wrapper " + ctx)
						f := &Field{Kind: "message", TypeName: wrapperOf[k]}
						b.place("message", wrapperOf[k], b.valueRules(f, true, true), ctx)
					}
				}
			}
		}
	case "any":
		for i := 0; i < 60*scale; i++ {
			b.msg("any")
			ctx := pick(g, []string{"", "", "", "oneof", "items", "values"})
			r := b.anyRules(pick(g, []string{"in", "not_in", "none", "required"}))
			if !b.full() && (ctx == "items" || ctx == "values") {
				r.In, r.NotIn = nil, nil
			}
			b.place("message", "google.protobuf.Any", r, ctx)
		}
	case "durations":
		b.times("google.protobuf.Duration", NumShapes, func(s string) *Rules { return g.DurRules(s) }, scale)
	case "timestamps":
		b.times("google.protobuf.Timestamp", TsShapes, func(s string) *Rules { return g.TsRules(s) }, scale)
	case "mix":
		for i := 0; i < 130*scale; i++ {
			b.mixMsg(2 + g.Intn(6))
		}
	default:
		panic("no schema for " + prop)
	}
	for _, f := range b.s.Files {
		if !f.NoPgv {
			for _, m := range f.Msgs {
				b.off(m)
			}
		}
	}
	return b.s
}

// off writes some rules and options that are false: they mean nothing.
func (b *B) off(m *Msg) {
	g := b.g
	if g.P(8) {
		m.Off = pick(g, []string{"disabled", "ignored"})
	}
	for _, o := range m.Oneofs {
		o.Off = g.P(25)
	}
	for _, f := range m.Fields {
		b.offRules(f.Rules)
	}
	for _, n := range m.Msgs {
		b.off(n)
	}
}

func (b *B) offRules(r *Rules) {
	if r == nil {
		return
	}
	b.offRules(r.Items)
	b.offRules(r.Keys)
	b.offRules(r.Values)
	g := b.g
	no := func(p **bool, pct int) {
		if *p == nil && g.P(pct) {
			*p = Fa()
		}
	}
	if r.Msg != nil {
		no(&r.Msg.Skip, 10)
		no(&r.Msg.Required, 10)
	}
	switch r.Type {
	case "repeated":
		no(&r.Unique, 10)
		no(&r.IgnoreEmpty, 5)
	case "map":
		no(&r.IgnoreEmpty, 5)
	case "any", "duration", "timestamp":
		no(&r.Required, 10)
	case "string":
		if r.WellKnown == "" && r.WKRegex == "" && r.Pattern == nil && g.P(10) {
			r.Off = pick(g, []string{"email: false", "hostname: false", "ip: false", "ipv4: false", "ipv6: false", "uri: false", "uri_ref: false", "address: false", "uuid: false", "well_known_regex: UNKNOWN"})
		}
	case "bytes":
		if r.WellKnown == "" && g.P(10) {
			r.Off = pick(g, []string{"ip: false", "ipv4: false", "ipv6: false"})
		}
	}
}

func (b *B) mixMsg(n int) {
	g := b.g
	b.msg("mix")
	for i := 0; i < n; i++ {
		if g.P(15) {
			o := b.oneof(g.P(40))
			for j := 0; j < 1+g.Intn(3); j++ {
				f := b.anyField()
				for f.Card != "" {
					f = b.anyField()
				}
				f.Oneof = o
				b.add(f)
			}
			continue
		}
		b.add(b.anyField())
	}
}

// values covers every shape of a scalar kind's rules in every context.
func (b *B) values(kind, typeName string, scale int, mk func(string, int) *Rules, shapes []string) {
	g := b.g
	for rep := 0; rep < scale; rep++ {
		type c struct {
			shape string
			ie    int
		}
		var l []c
		for _, s := range shapes {
			l = append(l, c{s, 0}, c{s, 1})
		}
		l = append(l, c{pick(g, shapes), 2})
		g.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		b.spread(func(i int) string { return "singular" }, len(l), 1+g.Intn(2), func(i int) {
			b.place(kind, typeName, mk(l[i].shape, l[i].ie), "")
		})
		for _, ctx := range []string{"oneof", "items", "values", "keys"} {
			if ctx == "keys" && kind != "string" {
				continue
			}
			for i := 0; i < 6; i++ {
				r := mk(pick(g, shapes), g.Intn(2))
				for ctx != "oneof" && !b.elemOK(r, ctx != "items") {
					r = mk(pick(g, shapes), g.Intn(2))
				}
				b.msg(ctx)
				b.place(kind, typeName, r, ctx)
			}
		}
	}
}

// nestedFormats: messages that need the helper functions only in nested
// messages, or next to each other.
func (b *B) nestedFormats(scale int) {
	g := b.g
	for i := 0; i < 8*scale; i++ {
		m := b.msg("nested")
		b.add(&Field{Kind: "string", Rules: g.FormatRules("uuid", 0)})
		if g.P(50) {
			b.add(&Field{Kind: "string", Rules: g.FormatRules(pick(g, FormatShapes), 0)})
		}
		in := &Msg{Name: "In", Tag: "nested"}
		in.Fields = append(in.Fields, &Field{Name: "s", Num: 1, Kind: "string", Rules: g.FormatRules(pick(g, []string{"uuid", "email", "hostname", "address"}), 0)})
		m.Msgs = append(m.Msgs, in)
		b.add(&Field{Kind: "message", TypeName: b.f.Pkg + "." + m.Name + ".In"})
	}
}

func (b *B) enums(scale int) {
	g := b.g
	b.perFile = 1 << 20 // a file ends with its repetition
	for rep := 0; rep < 4*scale; rep++ {
		b.endFile()
		h := b.h()
		// an enum nested in a message, and one of another package
		holder := &Msg{Name: "Holder"}
		e := g.Enum("Inner")
		holder.Enums = append(holder.Enums, e)
		b.f.Msgs = append(b.f.Msgs, holder)
		inner := b.f.Pkg + ".Holder.Inner"
		h.enums[inner] = e
		names := []string{h.enum, h.aliasEnum, inner}
		if len(b.s.Files) > 1 {
			prev := b.s.Files[len(b.s.Files)-2]
			b.f.Imports = append(b.f.Imports, prev.Name)
			ph := b.helpers[prev.Pkg]
			for _, n := range []string{prev.Pkg + ".Color", prev.Pkg + ".Holder.Inner"} {
				if ph.enums[n] == nil || prev.Syntax == "proto2" && b.f.Syntax != "proto2" {
					continue // this file took over the rest of the one before
				}
				h.enums[n] = ph.enums[n]
				names = append(names, n)
			}
		}
		for _, n := range names {
			ext := !strings.HasPrefix(n, b.f.Pkg+".")
			for _, s := range EnumShapes {
				b.msg("singular")
				b.place("enum", n, g.EnumRules(h.enums[n], s), "")
			}
			for _, ctx := range []string{"oneof", "items", "values", "items", "values"} {
				if ext && ctx != "oneof" && !ExternalEnumElems {
					continue
				}
				b.msg(ctx)
				var r *Rules
				for r == nil || ctx != "oneof" && !b.elemOK(r, ctx != "items") {
					r = g.EnumRules(h.enums[n], pick(g, EnumShapes))
				}
				b.place("enum", n, r, ctx)
			}
		}
	}
	// enums of another package that a file only uses inside lists, or only
	// inside maps, or only in oneofs
	for _, ctx := range []string{"items", "values", "oneof"} {
		b.endFile()
		h := b.h()
		from := b.s.Files[0]
		for i := 0; i < 20 && (i == 0 || from.Syntax == "proto2" && b.f.Syntax != "proto2"); i++ {
			from = b.s.Files[g.Intn(4)]
		}
		if from.Syntax == "proto2" {
			b.f.Syntax = "proto2"
		}
		b.f.Imports = append(b.f.Imports, from.Name)
		n := from.Pkg + pick(g, []string{".Color", ".Odd", ".Holder.Inner"})
		h.enums[n] = b.helpers[from.Pkg].enums[n]
		for i := 0; i < 3; i++ {
			b.msg(ctx + " external")
			var r *Rules
			for r == nil || !b.elemOK(r, ctx == "values") {
				r = g.EnumRules(h.enums[n], pick(g, EnumShapes))
			}
			b.place("enum", n, r, ctx)
		}
	}
	// bool
	for i := 0; i < 12*scale; i++ {
		ctx := pick(g, []string{"", "", "oneof", "items", "values", "keys"})
		b.msg("bool " + ctx)
		r := b.scalarRules("bool", "")
		if g.P(15) {
			r.Const = nil
		}
		b.place("bool", "", r, ctx)
	}
}

// ExternalEnumElems: enums of another package as list items and map values.
var ExternalEnumElems = true

func (b *B) times(typeName string, shapes []string, mk func(string) *Rules, scale int) {
	g := b.g
	for rep := 0; rep < 3*scale; rep++ {
		for _, s := range shapes {
			for i := 0; i < 2; i++ {
				b.msg("singular")
				b.place("message", typeName, mk(s), "")
			}
		}
		for _, ctx := range []string{"oneof", "items", "values"} {
			for i := 0; i < 6; i++ {
				r := mk(pick(g, shapes))
				for ctx != "oneof" && !b.elemMsgOK(typeName, r, ctx == "values") {
					r = mk(pick(g, shapes))
				}
				b.msg(ctx)
				b.place("message", typeName, r, ctx)
			}
		}
	}
}

func (b *B) containers(card string, scale int) {
	g := b.g
	for rep := 0; rep < 2*scale; rep++ {
		kinds := append([]string{}, scalarKinds...)
		kinds = append(kinds, msgKinds...)
		kinds = append(kinds, "leaf", "other", "rec", "disabled", "ignored", "plain", "leaf", "other")
		if WrapperItems {
			for _, k := range wrapperKinds {
				kinds = append(kinds, wrapperOf[k])
			}
		}
		for _, k := range kinds {
			for i := 0; i < 4; i++ {
				b.msg(card)
				h := b.h()
				f := &Field{Kind: k, Card: card}
				switch {
				case k == "enum":
					f.TypeName = pick(g, []string{h.enum, h.aliasEnum})
				case isWKT(k):
					f.Kind, f.TypeName = "message", k
				default:
					if n := map[string]string{"leaf": h.leaf, "other": h.other, "rec": h.rec, "disabled": h.disabled, "ignored": h.ignored, "plain": h.plain}[k]; n != "" {
						f.Kind, f.TypeName = "message", n
					}
				}
				if card == "map" {
					f.KeyKind = pick(g, mapKeyKinds)
				}
				f.Rules = b.rulesFor(f)
				b.add(f)
				if g.P(20) {
					b.add(b.anyField())
				}
			}
		}
	}
}

// messages: embedded messages in all positions, deep and recursive types,
// disabled and ignored ones, types of another package.
func (b *B) messages(scale int) {
	g := b.g
	b.perFile = 1 << 20
	var prev *File
	for rep := 0; rep < 3*scale; rep++ {
		b.endFile()
		h := b.h()
		targets := []string{h.leaf, h.other, h.rec, h.disabled, h.ignored, h.plain, "google.protobuf.Struct", "google.protobuf.Empty"}
		if prev != nil {
			b.f.Imports = append(b.f.Imports, prev.Name)
			ph := b.helpers[prev.Pkg]
			targets = append(targets, ph.leaf, ph.other, ph.rec, ph.disabled, ph.ignored)
		}
		prev = b.f
		// a chain of messages, each embedding the one before
		chain := []string{h.leaf}
		for i := 0; i < 4; i++ {
			m := b.msg("chain")
			b.add(&Field{Kind: "message", TypeName: chain[len(chain)-1], Rules: b.msgRules()})
			if g.P(50) {
				b.add(&Field{Kind: "int32", Rules: g.NumRules("int32", pick(g, NumShapes), 0)})
			}
			chain = append(chain, b.f.Pkg+"."+m.Name)
		}
		targets = append(targets, chain...)
		var kept []string
		for i := 0; i < 26; i++ {
			m := b.msg("message")
			for j := 0; j < 1+g.Intn(3); j++ {
				f := &Field{Kind: "message", TypeName: pick(g, targets), Rules: b.msgRules()}
				if g.P(15) {
					f.Oneof = b.oneof(g.P(30))
				}
				b.add(f)
			}
			switch g.Intn(8) {
			case 0:
				m.Disabled = true
				m.Tag = "disabled"
			case 1:
				m.Ignored = true
				m.Tag = "ignored"
			case 2:
				// recursion through itself
				b.add(&Field{Kind: "message", TypeName: b.f.Pkg + "." + m.Name, Rules: pick(g, []*Rules{nil, {Msg: &MsgRules{Skip: T()}}})})
				m.Tag = "recursive"
			case 3:
				in := &Msg{Name: "In", Tag: "nested", Fields: []*Field{{Name: "v", Num: 1, Kind: "int64", Rules: g.NumRules("int64", pick(g, NumShapes), 0)}}}
				deep := &Msg{Name: "Deep", Tag: "nested", Fields: []*Field{{Name: "w", Num: 1, Kind: "string", Rules: g.StrRules(pick(g, StrShapes), 0)}}}
				in.Msgs = append(in.Msgs, deep)
				m.Msgs = append(m.Msgs, in)
				b.add(&Field{Kind: "message", TypeName: b.f.Pkg + "." + m.Name + ".In", Rules: b.msgRules()})
				b.add(&Field{Kind: "message", TypeName: b.f.Pkg + "." + m.Name + ".In.Deep", Rules: b.msgRules()})
				m.Tag = "nested"
			}
			if (m.Ignored || m.Disabled) && g.P(60) || g.P(8) {
				// types nested in messages without validation have their own
				in := &Msg{Name: "Kept", Tag: "nested in " + m.Tag, Fields: []*Field{
					{Name: "v", Num: 1, Kind: "int64", Rules: g.NumRules("int64", pick(g, NumShapes), 0)},
					{Name: "l", Num: 2, Kind: "message", TypeName: h.leaf, Rules: b.msgRules()}}}
				full := b.f.Pkg + "." + m.Name + ".Kept"
				if g.P(40) {
					in.Msgs = append(in.Msgs, &Msg{Name: "Deeper", Tag: "nested in " + m.Tag, Fields: []*Field{{Name: "w", Num: 1, Kind: "uint32", Rules: g.NumRules("uint32", "gt", 0)}}})
					targets = append(targets, full+".Deeper")
				}
				switch g.Intn(4) {
				case 0:
					in.Disabled = true
				case 1:
					in.Ignored = true
				}
				m.Msgs = append(m.Msgs, in)
				kept = append(kept, full)
				targets = append(targets, full)
			}
			if g.P(40) {
				b.add(b.anyField())
			}
			if len(kept) > 0 && !m.Ignored && !m.Disabled && g.P(30) {
				b.add(&Field{Kind: "message", TypeName: pick(g, kept), Rules: b.msgRules(), Card: pick(g, []string{"", "", "repeated"})})
				if f := m.Fields[len(m.Fields)-1]; f.Card != "" && f.Rules != nil {
					f.Rules = &Rules{Type: "repeated", Items: f.Rules}
				}
			}
			if !m.Ignored && !m.Disabled && g.P(50) {
				targets = append(targets, b.f.Pkg+"."+m.Name)
			}
		}
	}
}
