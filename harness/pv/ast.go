// Package pv holds the schema model, the generators, the reference
// interpreter of the validation rules and the driver that compares generated
// code with it.
package pv

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
)

// Schema is a set of .proto files, all generated into one Go module.
type Schema struct {
	Files []*File
}

type File struct {
	Name    string // path of the .proto file, relative to the workspace root
	Pkg     string // proto package
	GoPkg   string // go_package (import path)
	Syntax  string // proto2 or proto3
	Imports []string
	Options []string // extra file options, printed verbatim
	Enums   []*Enum
	Msgs    []*Msg
	// Filler is true for files whose messages are only referenced by others.
	Filler bool
	Public []string `json:",omitempty"` // public imports
	Extra  []string `json:",omitempty"` // printed at the end
	Dot    bool     `json:",omitempty"` // options are written with their full names
	NoPgv  bool     `json:",omitempty"` // does not import validate.proto
}

type Enum struct {
	Name  string
	Alias bool
	Vals  []EnumVal
}

type EnumVal struct {
	Name string
	Num  int32
}

type Msg struct {
	Name     string
	Disabled bool   `json:",omitempty"`
	Ignored  bool   `json:",omitempty"`
	Off      string `json:",omitempty"` // an option that is written and false
	Fields   []*Field
	Oneofs   []*Oneof `json:",omitempty"`
	Msgs     []*Msg   `json:",omitempty"`
	Enums    []*Enum  `json:",omitempty"`
	Tag      string   `json:",omitempty"` // class label for the statistics
	Extra    []string `json:",omitempty"` // printed in the body

	full string
}

type Oneof struct {
	Name     string
	Required bool
	Off      bool `json:",omitempty"` // required = false is written
}

type Field struct {
	Name     string
	Num      int
	Kind     string   // int32 ... string bytes bool enum message
	TypeName string   `json:",omitempty"` // full name without leading dot, for enum and message
	Card     string   `json:",omitempty"` // "", repeated, map, required2
	KeyKind  string   `json:",omitempty"`
	Oneof    int      // index+1, 0 = none
	Opt      bool     `json:",omitempty"` // proto3 optional
	Rules    *Rules   `json:",omitempty"`
	Extra    []string `json:",omitempty"` // further options, e.g. default = 3
}

// Val is one rule parameter. Which member is used depends on the kind.
type Val struct {
	I int64    `json:",omitempty"`
	U uint64   `json:",omitempty"`
	F uint64   `json:",omitempty"` // bits of a float64
	B bool     `json:",omitempty"`
	S []byte   `json:",omitempty"`
	D [2]int64 // seconds, nanos
}

func (v Val) Float() float64 { return math.Float64frombits(v.F) }
func FVal(f float64) Val     { return Val{F: math.Float64bits(f)} }
func IVal(i int64) Val       { return Val{I: i} }
func UVal(u uint64) Val      { return Val{U: u} }
func SVal(s string) Val      { return Val{S: []byte(s)} }
func DVal(s, n int64) Val    { return Val{D: [2]int64{s, n}} }

type MsgRules struct {
	Skip, Required *bool `json:",omitempty"`
}

// Rules is one FieldRules message.
type Rules struct {
	Type string    // int32..bytes, enum, repeated, map, any, duration, timestamp, "" = none
	Msg  *MsgRules `json:",omitempty"`

	Const, Lt, Lte, Gt, Gte *Val  `json:",omitempty"`
	In, NotIn               []Val `json:",omitempty"`
	IgnoreEmpty             *bool `json:",omitempty"`

	Len, MinLen, MaxLen, LenBytes, MinBytes, MaxBytes *uint64 `json:",omitempty"`
	Pattern, Prefix, Suffix, Contains, NotContains    *Val    `json:",omitempty"`
	WellKnown                                         string  `json:",omitempty"` // email hostname ip ...
	WKRegex                                           string  `json:",omitempty"`
	Strict                                            *bool   `json:",omitempty"`

	DefinedOnly *bool `json:",omitempty"`
	Required    *bool `json:",omitempty"`

	LtNow, GtNow *bool `json:",omitempty"`
	Within       *Val  `json:",omitempty"`

	Min, Max         *uint64 `json:",omitempty"` // items / pairs
	Unique, NoSparse *bool   `json:",omitempty"`
	Items            *Rules  `json:",omitempty"`
	Keys, Values     *Rules  `json:",omitempty"`

	Off string `json:",omitempty"` // a rule that is written and says nothing, such as "email: false"
}

func T() *bool             { b := true; return &b }
func Fa() *bool            { b := false; return &b }
func P64(u uint64) *uint64 { return &u }
func bv(b *bool) bool      { return b != nil && *b }

// ---- text output -------------------------------------------------------

func quoteBytes(b []byte) string {
	var s strings.Builder
	s.WriteByte('"')
	for _, c := range b {
		switch {
		case c == '"' || c == '\\':
			s.WriteByte('\\')
			s.WriteByte(c)
		case c >= 0x20 && c < 0x7f:
			s.WriteByte(c)
		default:
			fmt.Fprintf(&s, "\\%03o", c)
		}
	}
	s.WriteByte('"')
	return s.String()
}

func floatText(f float64) string {
	switch {
	case math.IsNaN(f):
		return "nan"
	case math.IsInf(f, 1):
		return "inf"
	case math.IsInf(f, -1):
		return "-inf"
	}
	return strconv.FormatFloat(f, 'g', 17, 64)
}

func kindClass(kind string) string {
	switch kind {
	case "int32", "int64", "sint32", "sint64", "sfixed32", "sfixed64", "enum":
		return "int"
	case "uint32", "uint64", "fixed32", "fixed64":
		return "uint"
	case "float", "double":
		return "float"
	case "string", "bytes", "any":
		return "str"
	case "bool":
		return "bool"
	case "duration", "timestamp":
		return "time"
	}
	return ""
}

func (v Val) text(kind string) string {
	switch kindClass(kind) {
	case "int":
		return strconv.FormatInt(v.I, 10)
	case "uint":
		return strconv.FormatUint(v.U, 10)
	case "float":
		return floatText(v.Float())
	case "str":
		return quoteBytes(v.S)
	case "bool":
		return strconv.FormatBool(v.B)
	case "time":
		return fmt.Sprintf("{seconds: %d, nanos: %d}", v.D[0], v.D[1])
	}
	panic("no text for kind " + kind)
}

// Text prints the rules in text format, as the body of a FieldRules message.
func (r *Rules) Text() string {
	var parts []string
	if r.Msg != nil {
		var p []string
		if r.Msg.Skip != nil {
			p = append(p, fmt.Sprintf("skip: %v", *r.Msg.Skip))
		}
		if r.Msg.Required != nil {
			p = append(p, fmt.Sprintf("required: %v", *r.Msg.Required))
		}
		parts = append(parts, "message: {"+strings.Join(p, ", ")+"}")
	}
	if r.Type != "" {
		parts = append(parts, r.Type+": {"+strings.Join(r.params(), ", ")+"}")
	}
	return strings.Join(parts, ", ")
}

func (r *Rules) params() []string {
	var p []string
	val := func(n string, v *Val) {
		if v != nil {
			p = append(p, n+": "+v.text(r.Type))
		}
	}
	str := func(n string, v *Val) {
		if v != nil {
			p = append(p, n+": "+quoteBytes(v.S))
		}
	}
	bl := func(n string, v *bool) {
		if v != nil {
			p = append(p, fmt.Sprintf("%s: %v", n, *v))
		}
	}
	u := func(n string, v *uint64) {
		if v != nil {
			p = append(p, fmt.Sprintf("%s: %d", n, *v))
		}
	}
	val("const", r.Const)
	val("lt", r.Lt)
	val("lte", r.Lte)
	val("gt", r.Gt)
	val("gte", r.Gte)
	for i := range r.In {
		val("in", &r.In[i])
	}
	for i := range r.NotIn {
		val("not_in", &r.NotIn[i])
	}
	u("len", r.Len)
	u("min_len", r.MinLen)
	u("max_len", r.MaxLen)
	u("len_bytes", r.LenBytes)
	u("min_bytes", r.MinBytes)
	u("max_bytes", r.MaxBytes)
	str("pattern", r.Pattern)
	str("prefix", r.Prefix)
	str("suffix", r.Suffix)
	str("contains", r.Contains)
	str("not_contains", r.NotContains)
	if r.WellKnown != "" {
		p = append(p, r.WellKnown+": true")
	}
	if r.WKRegex != "" {
		p = append(p, "well_known_regex: "+r.WKRegex)
	}
	if r.Off != "" {
		p = append(p, r.Off)
	}
	bl("strict", r.Strict)
	bl("defined_only", r.DefinedOnly)
	bl("required", r.Required)
	bl("lt_now", r.LtNow)
	bl("gt_now", r.GtNow)
	if r.Within != nil {
		p = append(p, "within: "+r.Within.text("duration"))
	}
	if r.Type == "map" {
		u("min_pairs", r.Min)
		u("max_pairs", r.Max)
	} else {
		u("min_items", r.Min)
		u("max_items", r.Max)
	}
	bl("unique", r.Unique)
	bl("no_sparse", r.NoSparse)
	if r.Items != nil {
		p = append(p, "items: {"+r.Items.Text()+"}")
	}
	if r.Keys != nil {
		p = append(p, "keys: {"+r.Keys.Text()+"}")
	}
	if r.Values != nil {
		p = append(p, "values: {"+r.Values.Text()+"}")
	}
	bl("ignore_empty", r.IgnoreEmpty)
	return p
}

func (f *Field) typeText() string {
	if f.Kind == "enum" || f.Kind == "message" {
		return "." + f.TypeName
	}
	return f.Kind
}

func (f *Field) text(syntax string, inOneof bool) string {
	var s string
	switch f.Card {
	case "repeated":
		s = "repeated " + f.typeText()
	case "map":
		s = fmt.Sprintf("map<%s, %s>", f.KeyKind, f.typeText())
	case "required2":
		s = "required " + f.typeText()
	default:
		if (syntax == "proto2" || f.Opt) && !inOneof {
			s = "optional " + f.typeText()
		} else {
			s = f.typeText()
		}
	}
	s += fmt.Sprintf(" %s = %d", f.Name, f.Num)
	opts := append([]string(nil), f.Extra...)
	if f.Rules != nil {
		opts = append(opts, "(validate.rules) = {"+f.Rules.Text()+"}")
	}
	if len(opts) > 0 {
		s += " [" + strings.Join(opts, ", ") + "]"
	}
	return s + ";"
}

func (e *Enum) write(b *strings.Builder, ind string) {
	fmt.Fprintf(b, "%senum %s {\n", ind, e.Name)
	if e.Alias {
		fmt.Fprintf(b, "%s  option allow_alias = true;\n", ind)
	}
	for _, v := range e.Vals {
		fmt.Fprintf(b, "%s  %s = %d;\n", ind, v.Name, v.Num)
	}
	fmt.Fprintf(b, "%s}\n", ind)
}

func (m *Msg) write(b *strings.Builder, syntax, ind string) {
	fmt.Fprintf(b, "%smessage %s {\n", ind, m.Name)
	if m.Disabled {
		fmt.Fprintf(b, "%s  option (validate.disabled) = true;\n", ind)
	}
	if m.Ignored {
		fmt.Fprintf(b, "%s  option (validate.ignored) = true;\n", ind)
	}
	if m.Off != "" && !m.Disabled && !m.Ignored {
		fmt.Fprintf(b, "%s  option (validate.%s) = false;\n", ind, m.Off)
	}
	for _, e := range m.Enums {
		e.write(b, ind+"  ")
	}
	for _, n := range m.Msgs {
		n.write(b, syntax, ind+"  ")
	}
	for _, x := range m.Extra {
		fmt.Fprintf(b, "%s  %s\n", ind, x)
	}
	done := map[int]bool{}
	for _, f := range m.Fields {
		if f.Oneof == 0 {
			fmt.Fprintf(b, "%s  %s\n", ind, f.text(syntax, false))
			continue
		}
		if done[f.Oneof] {
			continue
		}
		done[f.Oneof] = true
		o := m.Oneofs[f.Oneof-1]
		fmt.Fprintf(b, "%s  oneof %s {\n", ind, o.Name)
		if o.Required {
			fmt.Fprintf(b, "%s    option (validate.required) = true;\n", ind)
		} else if o.Off {
			fmt.Fprintf(b, "%s    option (validate.required) = false;\n", ind)
		}
		for _, g := range m.Fields {
			if g.Oneof == f.Oneof {
				fmt.Fprintf(b, "%s    %s\n", ind, g.text(syntax, true))
			}
		}
		fmt.Fprintf(b, "%s  }\n", ind)
	}
	fmt.Fprintf(b, "%s}\n", ind)
}

// Text prints the message declaration.
func (m *Msg) Text() string {
	var b strings.Builder
	m.write(&b, "", "")
	return b.String()
}

// Text prints the .proto file.
func (f *File) Text() string {
	var b strings.Builder
	fmt.Fprintf(&b, "syntax = %q;\n", f.Syntax)
	if f.Pkg != "" {
		fmt.Fprintf(&b, "package %s;\n", f.Pkg)
	}
	if f.GoPkg != "" {
		fmt.Fprintf(&b, "option go_package = %q;\n", f.GoPkg)
	}
	for _, o := range f.Options {
		fmt.Fprintf(&b, "option %s;\n", o)
	}
	imps := map[string]bool{}
	if !f.NoPgv {
		imps["validate/validate.proto"] = true
	}
	for _, i := range f.Imports {
		imps[i] = true
	}
	f.EachMsg(func(m *Msg) {
		for _, fl := range m.Fields {
			if fl.Kind != "message" {
				continue
			}
			if i := wktFile(fl.TypeName); i != "" {
				imps[i] = true
			}
		}
	})
	var keys []string
	for k := range imps {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Fprintf(&b, "import %q;\n", k)
	}
	for _, k := range f.Public {
		fmt.Fprintf(&b, "import public %q;\n", k)
	}
	b.WriteString("\n")
	for _, e := range f.Enums {
		e.write(&b, "")
	}
	for _, m := range f.Msgs {
		m.write(&b, f.Syntax, "")
	}
	for _, x := range f.Extra {
		b.WriteString(x + "\n")
	}
	if f.Dot {
		return strings.ReplaceAll(b.String(), "(validate.", "(.validate.")
	}
	return b.String()
}

// EachMsg visits every message, nested ones included, in declaration order.
func (f *File) EachMsg(fn func(*Msg)) {
	var rec func(m *Msg)
	rec = func(m *Msg) {
		fn(m)
		for _, n := range m.Msgs {
			rec(n)
		}
	}
	for _, m := range f.Msgs {
		rec(m)
	}
}

var wktFiles = map[string]string{
	"google.protobuf.Any":         "google/protobuf/any.proto",
	"google.protobuf.Duration":    "google/protobuf/duration.proto",
	"google.protobuf.Timestamp":   "google/protobuf/timestamp.proto",
	"google.protobuf.Struct":      "google/protobuf/struct.proto",
	"google.protobuf.Value":       "google/protobuf/struct.proto",
	"google.protobuf.Empty":       "google/protobuf/empty.proto",
	"google.protobuf.FloatValue":  "google/protobuf/wrappers.proto",
	"google.protobuf.DoubleValue": "google/protobuf/wrappers.proto",
	"google.protobuf.Int32Value":  "google/protobuf/wrappers.proto",
	"google.protobuf.Int64Value":  "google/protobuf/wrappers.proto",
	"google.protobuf.UInt32Value": "google/protobuf/wrappers.proto",
	"google.protobuf.UInt64Value": "google/protobuf/wrappers.proto",
	"google.protobuf.BoolValue":   "google/protobuf/wrappers.proto",
	"google.protobuf.StringValue": "google/protobuf/wrappers.proto",
	"google.protobuf.BytesValue":  "google/protobuf/wrappers.proto",
}

func wktFile(name string) string { return wktFiles[name] }

// wrapperOf maps a scalar kind to its wrapper message.
var wrapperOf = map[string]string{
	"float": "google.protobuf.FloatValue", "double": "google.protobuf.DoubleValue",
	"int32": "google.protobuf.Int32Value", "int64": "google.protobuf.Int64Value",
	"uint32": "google.protobuf.UInt32Value", "uint64": "google.protobuf.UInt64Value",
	"bool": "google.protobuf.BoolValue", "string": "google.protobuf.StringValue",
	"bytes": "google.protobuf.BytesValue",
}

var wrapperKinds = []string{"float", "double", "int32", "int64", "uint32", "uint64", "bool", "string", "bytes"}
var numKinds = []string{"float", "double", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64"}

func wrappedKind(typeName string) string {
	for k, w := range wrapperOf {
		if w == typeName {
			return k
		}
	}
	return ""
}

// ---- registry ----------------------------------------------------------

// Reg finds messages and enums by full name.
type Reg struct {
	Msgs  map[string]*Msg
	Enums map[string]*Enum
}

func NewReg(s *Schema) *Reg {
	r := &Reg{Msgs: map[string]*Msg{}, Enums: map[string]*Enum{}}
	for _, f := range s.Files {
		var rec func(prefix string, m *Msg)
		rec = func(prefix string, m *Msg) {
			m.full = join(prefix, m.Name)
			r.Msgs[m.full] = m
			for _, e := range m.Enums {
				r.Enums[m.full+"."+e.Name] = e
			}
			for _, n := range m.Msgs {
				rec(m.full, n)
			}
		}
		for _, m := range f.Msgs {
			rec(f.Pkg, m)
		}
		for _, e := range f.Enums {
			r.Enums[join(f.Pkg, e.Name)] = e
		}
	}
	return r
}

func join(a, b string) string {
	if a == "" {
		return b
	}
	return a + "." + b
}

func LoadSchema(path string) (*Schema, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var s Schema
	return &s, json.Unmarshal(b, &s)
}

// GoCamel is the Go field name of a proto field name (the plain cases the
// generators use).
func GoCamel(s string) string {
	var b strings.Builder
	up := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '_' && i+1 < len(s) && s[i+1] >= 'a' && s[i+1] <= 'z' {
			up = true
			continue
		}
		if up && c >= 'a' && c <= 'z' {
			c -= 32
		}
		up = c >= '0' && c <= '9'
		b.WriteByte(c)
	}
	return b.String()
}
