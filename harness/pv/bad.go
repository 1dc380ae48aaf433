package pv

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"
)

// BadCase is a file with one thing wrong (Label, in Field of Msg), or, with
// an empty Label, a file that looks wrong but is fine (Why).
type BadCase struct {
	Schema     *Schema
	Label, Why string
	Msg, Field string
	File       string
}

// Text is the text of the file in question.
func (c *BadCase) Text() string {
	for _, f := range c.Schema.Files {
		if f.Name == c.File {
			return f.Text()
		}
	}
	return ""
}

// NewBadCase draws a file with one contradiction or type error in its rules.
func NewBadCase(seed int64) *BadCase {
	b := NewB(seed)
	b.perFile = 1 << 20
	g := b.g
	for n := g.Intn(3); n > 0; n-- {
		b.msg("plain")
		b.add(b.anyField())
	}
	b.msg("bad")
	for n := g.Intn(3); n > 0; n-- {
		b.add(b.anyField())
	}
	c := &BadCase{Schema: b.s}
	var f *Field
	switch n := g.Intn(100); {
	case n < 55:
		f = b.badValue(c)
	case n < 70:
		f = b.badContainer(c)
	default:
		f = b.badType(c)
	}
	c.Msg, c.Field = b.m.Name, f.Name
	m := b.m
	for n := g.Intn(2); n > 0; n-- {
		b.add(b.anyField())
	}
	// sometimes nested, sometimes not the last message
	switch g.Intn(4) {
	case 0:
		b.f.Msgs = b.f.Msgs[:len(b.f.Msgs)-1]
		top := &Msg{Name: "Outer", Msgs: []*Msg{m}, Fields: []*Field{{Name: "a", Num: 1, Kind: "int32"}}}
		for n := g.Intn(3); n > 0; n-- {
			top = &Msg{Name: fmt.Sprintf("Outer%d", n), Msgs: []*Msg{{Name: "Side"}, top, {Name: "Side2"}}}
		}
		b.f.Msgs = append(b.f.Msgs, top)
	case 1:
		b.msg("plain")
		b.add(b.anyField())
	}
	// sometimes not the only file
	file := b.f
	for _, n := range []string{"aa", "zz"} {
		if g.P(20) {
			b.s.Files = append(b.s.Files, &File{Name: n + "/" + n + ".proto", Pkg: "pv." + n, GoPkg: "verifgen/" + n, Syntax: "proto3",
				Msgs: []*Msg{{Name: "Simple", Fields: []*Field{{Name: "num", Num: 1, Kind: "int32", Rules: &Rules{Type: "int32", Gt: ptr(IVal(3))}}}}}})
		}
	}
	sort.Slice(b.s.Files, func(i, j int) bool { return b.s.Files[i].Name < b.s.Files[j].Name })
	if g.P(30) {
		l := b.s.Files
		g.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	}
	c.File = file.Name
	// contradictions in disabled messages do not matter; rules of the wrong
	// type may be refused there or not
	if g.P(10) && !strings.HasPrefix(c.Label, "type:") && !strings.HasPrefix(c.Label, "message:") &&
		!strings.HasPrefix(c.Label, "repeated:") && !strings.HasPrefix(c.Label, "map:") {
		m.Disabled = true
		c.Why, c.Label = "disabled: "+c.Label, ""
	}
	return c
}

// at places value rules anywhere a value of that kind can be.
func (b *B) at(kind, typeName string, r *Rules) *Field {
	ctx := []string{"singular", "singular", "oneof", "items", "values"}
	for _, k := range mapKeyKinds {
		if k == kind {
			ctx = append(ctx, "keys")
		}
	}
	where := pick(b.g, ctx)
	if where == "oneof" {
		b.place(kind, typeName, r, where)
		return b.m.Fields[len(b.m.Fields)-2]
	}
	return b.place(kind, typeName, r, where)
}

func (b *B) badValue(c *BadCase) *Field {
	g := b.g
	switch g.Intn(12) {
	case 0, 1, 2:
		kind := pick(g, numKinds)
		r := &Rules{Type: kind}
		c.Label = kind + ": " + b.badNums(r, kind, func() Val { return g.numParam(kind) }, true)
		if w := wrapperOf[kind]; w != "" && g.P(25) {
			return b.at("message", w, r)
		}
		return b.at(kind, "", r)
	case 3, 4:
		return b.badDuration(c)
	case 5, 6:
		return b.badTimestamp(c)
	case 7:
		r := &Rules{Type: "any", In: []Val{SVal("a")}, NotIn: []Val{SVal("b")}}
		c.Label = "any: in+not_in"
		return b.at("message", "google.protobuf.Any", r)
	case 8:
		e := b.h().enum
		r := &Rules{Type: "enum"}
		if g.P(50) {
			c.Label = "enum: in+not_in"
			r.In, r.NotIn = []Val{IVal(0)}, []Val{IVal(1)}
		} else {
			c.Label = "enum: defined_only with undefined in"
			r = g.EnumRules(b.h().enums[e], "defined_only+in")
			un := int64(1000 + g.Intn(1000))
			if g.P(30) {
				un = -un
			}
			r.In = append(r.In, IVal(un))
			k := g.Intn(len(r.In))
			r.In[k], r.In[len(r.In)-1] = r.In[len(r.In)-1], r.In[k]
		}
		return b.at("enum", e, r)
	case 9:
		return b.badBytes(c)
	}
	return b.badString(c)
}

// badNums puts a contradiction into number-like rules.
func (b *B) badNums(r *Rules, kind string, param func() Val, lists bool) string {
	g := b.g
	one := func() *Val { v := param(); return &v }
	differ := func() (*Val, *Val) {
		x, y := one(), one()
		for sameVal(kind, *x, *y) {
			y = one()
		}
		return x, y
	}
	set := func(name string, v *Val) {
		switch name {
		case "const":
			r.Const = v
		case "lt":
			r.Lt = v
		case "lte":
			r.Lte = v
		case "gt":
			r.Gt = v
		case "gte":
			r.Gte = v
		case "in":
			r.In = []Val{*v}
		case "not_in":
			r.NotIn = []Val{*v}
		}
	}
	pairs := [][2]string{{"in", "not_in"}, {"const", "in"}, {"const", "not_in"}, {"const", "lt"}, {"const", "lte"}, {"const", "gt"}, {"const", "gte"},
		{"in", "lt"}, {"in", "lte"}, {"in", "gt"}, {"in", "gte"}, {"lt", "lte"}, {"gt", "gte"}}
	eq := [][2]string{{"lt", "gt"}, {"lt", "gte"}, {"lte", "gt"}, {"lte", "gte"}}
	if !lists {
		pairs = [][2]string{{"const", "lt"}, {"const", "lte"}, {"const", "gt"}, {"const", "gte"}, {"lt", "lte"}, {"gt", "gte"}}
	}
	// something consistent besides
	if lists && g.P(30) {
		r.NotIn = []Val{param()}
	}
	if g.P(20) && kindClass(kind) != "time" {
		r.IgnoreEmpty = T()
	}
	if g.P(40) {
		p := pick(g, eq)
		v := one()
		w := *v
		set(p[0], v)
		set(p[1], &w)
		return "equal " + p[0] + "+" + p[1]
	}
	p := pick(g, pairs)
	x, y := differ()
	set(p[0], x)
	set(p[1], y)
	if g.P(20) && p[0] != "const" && p[0] != "in" {
		// a bound on the other side does not change it
		z, _ := differ()
		if p[0] == "lt" {
			r.Gt = z
		} else {
			r.Lt = z
		}
		if sameVal(kind, *z, *x) || sameVal(kind, *z, *y) {
			return "lt+lte or gt+gte, with equal opposite bound"
		}
	}
	return p[0] + "+" + p[1]
}

func (b *B) badDuration(c *BadCase) *Field {
	g := b.g
	r := &Rules{Type: "duration"}
	if g.P(60) {
		c.Label = "duration: " + b.badNums(r, "duration", g.durParam, true)
	} else {
		bad := pick(g, []Val{DVal(1, -1), DVal(-1, 1), DVal(0, 1000000000), DVal(0, -1000000000), DVal(-5, -1000000001), DVal(315576000001, 0), DVal(-315576000001, 0), DVal(-3, 999999999)})
		w := pick(g, []string{"const", "lt", "lte", "gt", "gte", "in", "not_in"})
		c.Label = "duration: invalid " + w
		list := []Val{g.durParam(), bad}
		switch w {
		case "const":
			r.Const = &bad
		case "lt":
			r.Lt = &bad
		case "lte":
			r.Lte = &bad
		case "gt":
			r.Gt = &bad
		case "gte":
			r.Gte = &bad
		case "in":
			r.In = list
		case "not_in":
			r.NotIn = list
		}
	}
	if g.P(20) {
		r.Required = T()
	}
	return b.at("message", "google.protobuf.Duration", r)
}

func (b *B) badTimestamp(c *BadCase) *Field {
	g := b.g
	r := &Rules{Type: "timestamp"}
	dur := func() *Val { v := DVal(int64(1+g.Intn(1000)), 0); return &v }
	abs := func() string {
		v := g.tsParam()
		w := pick(g, []string{"lt", "lte", "gt", "gte"})
		switch w {
		case "lt":
			r.Lt = &v
		case "lte":
			r.Lte = &v
		case "gt":
			r.Gt = &v
		case "gte":
			r.Gte = &v
		}
		return w
	}
	switch g.Intn(6) {
	case 0, 1:
		c.Label = "timestamp: " + b.badNums(r, "timestamp", g.tsParam, false)
	case 2:
		r.LtNow, r.GtNow = T(), T()
		if g.P(30) {
			r.Within = dur()
		}
		c.Label = "timestamp: lt_now+gt_now"
	case 3:
		a := abs()
		switch g.Intn(3) {
		case 0:
			r.LtNow = T()
			c.Label = "timestamp: lt_now+" + a
		case 1:
			r.GtNow = T()
			c.Label = "timestamp: gt_now+" + a
		case 2:
			r.Within = dur()
			c.Label = "timestamp: within+" + a
		}
	case 4:
		v := pick(g, []Val{DVal(0, 0), DVal(-1, 0), DVal(0, -1), DVal(1, -1), DVal(0, 1000000000), DVal(-100, -5)})
		r.Within = &v
		c.Label = "timestamp: within not positive or invalid"
		if g.P(30) {
			r.GtNow = T()
		}
	case 5:
		v := pick(g, []Val{DVal(minTsSec-1, 0), DVal(maxTsSec+1, 0), DVal(0, -1), DVal(5, 1000000000), DVal(1<<60, 0)})
		w := pick(g, []string{"const", "lt", "lte", "gt", "gte"})
		switch w {
		case "const":
			r.Const = &v
		case "lt":
			r.Lt = &v
		case "lte":
			r.Lte = &v
		case "gt":
			r.Gt = &v
		case "gte":
			r.Gte = &v
		}
		c.Label = "timestamp: invalid " + w
	}
	if g.P(20) {
		r.Required = T()
	}
	return b.at("message", "google.protobuf.Timestamp", r)
}

var badPatterns = []string{"(", "[a-", "a{2,1}", "*a", "(?P<n>a", "\\", "a(?=b)", "[[:foo:]]", "a{1001}", "\\p{Foo}", "x**", "(?<!a)b"}

// big enough to be no problem, small enough to be realistic
func (b *B) lenVal() uint64 { return uint64(b.g.Intn(12)) }

func (b *B) badString(c *BadCase) *Field {
	g := b.g
	r := &Rules{Type: "string"}
	if g.P(20) {
		r.IgnoreEmpty = T()
	}
	if g.P(20) {
		r.NotContains = ptr(SVal("zz"))
	}
	long := func(max int) *Val { // longer than max runes
		n := max + 1 + g.Intn(3)
		return ptr(SVal(g.fillRunes(n)))
	}
	affix := func(v *Val) string {
		switch g.Intn(3) {
		case 0:
			r.Prefix = v
			return "prefix"
		case 1:
			r.Suffix = v
			return "suffix"
		}
		r.Contains = v
		return "contains"
	}
	var l string
	switch g.Intn(14) {
	case 0:
		r.Len, r.MinLen = P64(3+b.lenVal()), P64(b.lenVal())
		l = "len+min_len"
	case 1:
		r.Len, r.MaxLen = P64(b.lenVal()), P64(3+b.lenVal())
		l = "len+max_len"
	case 2:
		r.LenBytes, r.MinBytes = P64(3+b.lenVal()), P64(b.lenVal())
		l = "len_bytes+min_bytes"
	case 3:
		r.LenBytes, r.MaxBytes = P64(b.lenVal()), P64(3+b.lenVal())
		l = "len_bytes+max_bytes"
	case 4:
		n := b.lenVal()
		r.MinLen, r.MaxLen = P64(n+1+uint64(g.Intn(3))), P64(n)
		l = "min_len>max_len"
	case 5:
		n := b.lenVal()
		r.MinBytes, r.MaxBytes = P64(n+1+uint64(g.Intn(3))), P64(n)
		l = "min_bytes>max_bytes"
	case 6:
		r.In, r.NotIn = []Val{SVal("a"), SVal("b")}, []Val{SVal("c")}
		l = "in+not_in"
	case 7:
		v := SVal("^a+$")
		r.Pattern = &v
		r.WKRegex = pick(g, []string{"HTTP_HEADER_NAME", "HTTP_HEADER_VALUE"})
		l = "pattern+well_known_regex"
	case 8:
		r.In = []Val{SVal("a"), SVal("b")}
		if g.P(50) {
			r.Pattern = ptr(SVal("^a+$"))
			l = "in+pattern"
		} else {
			r.WKRegex = pick(g, []string{"HTTP_HEADER_NAME", "HTTP_HEADER_VALUE"})
			if g.P(40) {
				r.Strict = Fa()
			}
			l = "in+well_known_regex"
		}
	case 9, 10:
		r.Pattern = ptr(SVal(pick(g, badPatterns)))
		l = "bad pattern"
	case 11:
		n := int(b.lenVal())
		r.MaxLen = P64(uint64(n))
		l = affix(long(n)) + ">max_len"
	case 12:
		v := g.fillRunes(1 + g.Intn(6))
		r.MaxBytes = P64(uint64(g.Intn(len(v))))
		l = affix(ptr(SVal(v))) + ">max_bytes"
	case 13:
		n := b.lenVal()
		r.MaxBytes, r.MaxLen = P64(n), P64(n+1+uint64(g.Intn(5)))
		l = "max_len>max_bytes"
	}
	c.Label = "string: " + l
	if g.P(20) {
		return b.at("message", wrapperOf["string"], r)
	}
	return b.at("string", "", r)
}

func (b *B) badBytes(c *BadCase) *Field {
	g := b.g
	r := &Rules{Type: "bytes"}
	if g.P(20) {
		r.IgnoreEmpty = T()
	}
	var l string
	switch g.Intn(7) {
	case 0:
		n := b.lenVal()
		r.MinLen, r.MaxLen = P64(n+1+uint64(g.Intn(3))), P64(n)
		l = "min_len>max_len"
	case 1:
		r.In, r.NotIn = []Val{SVal("a"), SVal("b")}, []Val{SVal("c")}
		l = "in+not_in"
	case 2:
		r.In, r.Pattern = []Val{SVal("a")}, ptr(SVal("^a+$"))
		l = "in+pattern"
	case 3:
		r.Pattern = ptr(SVal(pick(g, badPatterns)))
		l = "bad pattern"
	case 4:
		n := b.lenVal()
		r.MaxLen = P64(n)
		v := &Val{S: g.raw(int(n) + 1 + g.Intn(2))}
		switch g.Intn(3) {
		case 0:
			r.Prefix, l = v, "prefix>max_len"
		case 1:
			r.Suffix, l = v, "suffix>max_len"
		case 2:
			r.Contains, l = v, "contains>max_len"
		}
	case 5:
		r.Len, r.MinLen = P64(3+b.lenVal()), P64(b.lenVal())
		l = "len+min_len"
	case 6:
		r.Len, r.MaxLen = P64(b.lenVal()), P64(3+b.lenVal())
		l = "len+max_len"
	}
	c.Label = "bytes: " + l
	if g.P(20) {
		return b.at("message", wrapperOf["bytes"], r)
	}
	return b.at("bytes", "", r)
}

func (b *B) badContainer(c *BadCase) *Field {
	g := b.g
	n := b.lenVal()
	hi, lo := P64(n+1+uint64(g.Intn(3))), P64(n)
	h := b.h()
	switch g.Intn(7) {
	case 0:
		c.Label = "repeated: min_items>max_items"
		return b.add(&Field{Kind: pick(g, numKinds), Card: "repeated", Rules: &Rules{Type: "repeated", Min: hi, Max: lo}})
	case 1:
		c.Label = "map: min_pairs>max_pairs"
		return b.add(&Field{Kind: pick(g, numKinds), Card: "map", KeyKind: pick(g, mapKeyKinds), Rules: &Rules{Type: "map", Min: hi, Max: lo}})
	case 2:
		c.Label = "repeated: unique messages"
		t := pick(g, append([]string{h.leaf, h.plain, h.rec, wrapperOf["string"]}, msgKinds...))
		return b.add(&Field{Kind: "message", TypeName: t, Card: "repeated", Rules: &Rules{Type: "repeated", Unique: T()}})
	case 3:
		c.Label = "map: no_sparse scalars"
		f := &Field{Kind: pick(g, scalarKinds), Card: "map", KeyKind: pick(g, mapKeyKinds), Rules: &Rules{Type: "map", NoSparse: T()}}
		if f.Kind == "enum" {
			f.TypeName = h.enum
		}
		return b.add(f)
	case 4:
		c.Label = "message: skip with scalar rules on a wrapper"
		k := pick(g, wrapperKinds)
		r := b.elemRules(k, "", true)
		r.Msg = &MsgRules{Skip: T()}
		if g.P(30) {
			r.Msg.Required = T()
		}
		return b.at("message", wrapperOf[k], r)
	case 5:
		c.Label = "message: rules on Any, Duration or Timestamp"
		return b.at("message", pick(g, msgKinds), &Rules{Msg: pick(g, []*MsgRules{{Required: T()}, {Skip: T()}})})
	}
	c.Label = "message: rules on a scalar"
	r := &Rules{Msg: pick(g, []*MsgRules{{Required: T()}, {Skip: T()}})}
	kind := pick(g, scalarKinds)
	if kind == "enum" {
		return b.at("enum", h.enum, r)
	}
	return b.at(kind, "", r)
}

// simpleRules draws consistent rules of a type, whatever the field.
func (b *B) simpleRules(typ string) *Rules {
	g := b.g
	switch typ {
	case "bool", "string", "bytes":
		return b.elemRules(typ, "", true)
	case "enum":
		return pick(g, []*Rules{{Type: "enum", DefinedOnly: T()}, {Type: "enum", Const: ptr(IVal(1))}, {Type: "enum"}})
	case "repeated":
		return pick(g, []*Rules{{Type: "repeated", Min: P64(1)}, {Type: "repeated", Max: P64(4)}, {Type: "repeated"}})
	case "map":
		return pick(g, []*Rules{{Type: "map", Min: P64(1)}, {Type: "map", Max: P64(4)}, {Type: "map"}})
	case "any":
		return pick(g, []*Rules{{Type: "any", Required: T()}, {Type: "any", In: []Val{SVal("x")}}, {Type: "any"}})
	case "duration":
		return g.DurRules(pick(g, NumShapes))
	case "timestamp":
		return g.TsRules(pick(g, TsShapes))
	}
	return g.NumRules(typ, pick(g, NumShapes), 0)
}

var ruleTypes = append(append([]string{}, numKinds...), "bool", "string", "bytes", "enum", "repeated", "map", "any", "duration", "timestamp")

// badType puts rules of one type on a field of another.
func (b *B) badType(c *BadCase) *Field {
	g := b.g
	h := b.h()
	type ft struct{ kind, name, want string }
	var l []ft
	for _, k := range scalarKinds {
		if k == "enum" {
			l = append(l, ft{k, h.enum, k})
		} else {
			l = append(l, ft{k, "", k})
		}
	}
	for _, k := range wrapperKinds {
		l = append(l, ft{"message", wrapperOf[k], k})
	}
	l = append(l, ft{"message", "google.protobuf.Any", "any"}, ft{"message", "google.protobuf.Duration", "duration"},
		ft{"message", "google.protobuf.Timestamp", "timestamp"}, ft{"message", h.leaf, ""}, ft{"message", h.rec, ""})
	// half the time, types that are easily taken for each other
	var t ft
	var typ string
	for {
		t, typ = pick(g, l), pick(g, ruleTypes)
		if g.P(40) {
			near := [][]string{{"int32", "sint32", "sfixed32", "enum", "uint32"}, {"int64", "sint64", "sfixed64", "uint64", "fixed64"}, {"float", "double"}, {"string", "bytes"}, {"uint32", "fixed32"}, {"any", "duration", "timestamp"}, {"repeated", "map"}}
			n := pick(g, near)
			want := pick(g, n)
			typ = pick(g, n)
			for _, x := range l {
				if x.want == want {
					t = x
					if g.P(60) {
						break
					}
				}
			}
		}
		if typ != t.want {
			break
		}
	}
	r := b.simpleRules(typ)
	name := t.kind
	if t.kind == "message" {
		name = t.name[strings.LastIndexByte(t.name, '.')+1:]
	}
	switch {
	case g.P(60):
		if typ == "repeated" || typ == "map" {
			// these have no place inside lists and maps either
			c.Label = "type: " + typ + " rules on " + name
			if g.P(50) {
				return b.add(&Field{Kind: t.kind, TypeName: t.name, Rules: r})
			}
			return b.at(t.kind, t.name, r)
		}
		c.Label = "type: " + typ + " rules on " + name
		return b.at(t.kind, t.name, r)
	case g.P(50):
		// value rules, even of the right type, on a list or map
		f := &Field{Kind: t.kind, TypeName: t.name, Card: "repeated", Rules: r}
		if t.want != "" && g.P(70) {
			f.Rules = b.simpleRules(t.want)
		}
		if f.Rules.Type == "repeated" {
			f.Rules = b.simpleRules("map")
		}
		c.Label = "type: value or map rules on repeated"
		return b.add(f)
	case g.P(50):
		f := &Field{Kind: t.kind, TypeName: t.name, Card: "map", KeyKind: pick(g, mapKeyKinds), Rules: r}
		if t.want != "" && g.P(70) {
			f.Rules = b.simpleRules(t.want)
		}
		if f.Rules.Type == "map" {
			f.Rules = b.simpleRules("repeated")
		}
		c.Label = "type: value or repeated rules on map"
		return b.add(f)
	}
	// message rules on lists and maps
	f := &Field{Kind: "message", TypeName: h.leaf, Card: "repeated", Rules: &Rules{Msg: &MsgRules{Required: T()}}}
	if g.P(50) {
		f.Card, f.KeyKind = "map", pick(g, mapKeyKinds)
	}
	c.Label = "type: message rules on " + f.Card
	return b.add(f)
}

// GoodSchema is a schema whose rules are all well typed and consistent, many
// of them just so.
func GoodSchema(seed int64, n int) *Schema {
	b := NewB(seed)
	g := b.g
	for i := 0; i < n; i++ {
		b.msg("good")
		if i%2 == 0 {
			for k := 1 + g.Intn(4); k > 0; k-- {
				b.add(b.anyField())
			}
			continue
		}
		b.edge()
	}
	return b.s
}

// edge adds a field with rules just on the right side of a contradiction.
func (b *B) edge() {
	g := b.g
	n := uint64(g.Intn(8))
	affixes := func(r *Rules, s string) {
		v := ptr(SVal(s))
		switch g.Intn(4) {
		case 0:
			r.Prefix = v
		case 1:
			r.Suffix = v
		case 2:
			r.Contains = v
		case 3:
			r.Prefix, r.Suffix, r.Contains = v, v, v
		}
	}
	switch g.Intn(15) {
	case 0:
		r := &Rules{Type: "string", MinLen: P64(n), MaxLen: P64(n)}
		b.at("string", "", r)
	case 1:
		s := g.fillRunes(1 + g.Intn(5))
		r := &Rules{Type: "string", MaxLen: P64(uint64(utf8.RuneCountInString(s)))}
		affixes(r, s)
		b.at("string", "", r)
	case 2:
		s := g.fillRunes(1 + g.Intn(5))
		r := &Rules{Type: "string", MaxBytes: P64(uint64(len(s)))}
		affixes(r, s)
		b.at("string", "", r)
	case 3:
		r := &Rules{Type: "string", MaxLen: P64(n), MaxBytes: P64(n), MinBytes: P64(n)}
		b.at("string", "", r)
	case 4:
		r := &Rules{Type: "string", Len: P64(n), MinBytes: P64(n), MaxBytes: P64(n * 4)}
		b.at("string", "", r)
	case 5:
		r := &Rules{Type: "string", LenBytes: P64(n + 3), MinLen: P64(n), MaxLen: P64(n + 3)}
		b.at("string", "", r)
	case 6:
		v := g.raw(1 + g.Intn(5))
		r := &Rules{Type: "bytes", MaxLen: P64(uint64(len(v))), MinLen: P64(uint64(len(v))), Prefix: &Val{S: v}, Contains: &Val{S: v}}
		b.at("bytes", "", r)
	case 7:
		// neighbouring bounds, both ways round
		kind := pick(g, numKinds)
		x := g.numParam(kind)
		y := g.numParam(kind)
		for sameVal(kind, x, y) {
			y = g.numParam(kind)
		}
		r := &Rules{Type: kind}
		if g.P(50) {
			r.Gt = &x
		} else {
			r.Gte = &x
		}
		if g.P(50) {
			r.Lt = &y
		} else {
			r.Lte = &y
		}
		if g.P(30) {
			r.NotIn = []Val{x, y}
		}
		b.at(kind, "", r)
	case 8:
		t := pick(g, []string{"duration", "timestamp"})
		p, full := g.durParam, "google.protobuf.Duration"
		if t == "timestamp" {
			p, full = g.tsParam, "google.protobuf.Timestamp"
		}
		x := p()
		y := x
		if y.D[1] == 0 {
			y.D[0]++
			if t == "timestamp" && y.D[0] > maxTsSec {
				y.D[0] -= 2
			}
		} else if y.D[1] > 0 {
			y.D[1]--
		} else {
			y.D[1]++
		}
		if t == "timestamp" && g.P(40) {
			// the same count of nanoseconds modulo 2^64
			x = DVal(-8000000000+g.Int63n(10000000000), int64(g.Intn(290448384)))
			y = DVal(x.D[0]+18446744073, x.D[1]+709551616)
		}
		if g.P(50) {
			x, y = y, x
		}
		r := &Rules{Type: t}
		if g.P(50) {
			r.Gt = &x
		} else {
			r.Gte = &x
		}
		if g.P(50) {
			r.Lt = &y
		} else {
			r.Lte = &y
		}
		b.at("message", full, r)
	case 9:
		e := b.h().aliasEnum
		var in []Val
		seen := map[int32]bool{}
		for _, v := range b.h().enums[e].Vals {
			if !seen[v.Num] {
				seen[v.Num] = true
				in = append(in, IVal(int64(v.Num)))
			}
		}
		b.at("enum", e, &Rules{Type: "enum", DefinedOnly: T(), In: in})
	case 10:
		b.at("enum", b.h().enum, &Rules{Type: "enum", DefinedOnly: Fa(), In: []Val{IVal(77), IVal(0)}})
	case 11:
		b.add(&Field{Kind: "int64", Card: "repeated", Rules: &Rules{Type: "repeated", Min: P64(n), Max: P64(n), Unique: T()}})
		b.add(&Field{Kind: "int64", Card: "map", KeyKind: "string", Rules: &Rules{Type: "map", Min: P64(n), Max: P64(n)}})
		b.add(&Field{Kind: "message", TypeName: b.h().leaf, Card: "map", KeyKind: "string", Rules: &Rules{Type: "map", NoSparse: T()}})
	case 12:
		v := DVal(0, 1)
		r := &Rules{Type: "timestamp", Within: &v}
		switch g.Intn(3) {
		case 0:
			r.LtNow = T()
		case 1:
			r.GtNow = T()
		}
		b.at("message", "google.protobuf.Timestamp", r)
	case 13:
		v := pick(g, []Val{DVal(0, 999999999), DVal(0, -999999999), DVal(-1, -999999999)})
		w := pick(g, []Val{DVal(minTsSec, 0), DVal(maxTsSec, 999999999)})
		b.at("message", "google.protobuf.Duration", &Rules{Type: "duration", Gte: &v})
		b.at("message", "google.protobuf.Timestamp", &Rules{Type: "timestamp", Const: &w})
	case 14:
		k := pick(g, wrapperKinds)
		r := b.elemRules(k, "", true)
		r.Msg = pick(g, []*MsgRules{{Required: T()}, {Skip: Fa()}, {Required: Fa()}})
		b.at("message", wrapperOf[k], r)
		b.at("message", b.h().leaf, &Rules{Msg: &MsgRules{Required: T(), Skip: T()}})
	}
}

func (c *BadCase) String() string {
	return fmt.Sprintf("%s%s in %s.%s", c.Label, c.Why, c.Msg, c.Field)
}
