package pv

import (
	"bytes"
	"fmt"
	"math"
	"net/mail"
	"net/netip"
	"net/url"
	"regexp"
	"strings"
	"time"
	"unicode/utf8"

	"google.golang.org/protobuf/reflect/protoreflect"
)

// Viol is one violated constraint, as the reference interpreter sees it.
type Viol struct {
	Field string // Go field name, with [index] or [key] for elements
	Full  string // full name of the proto field or oneof
	Rule  string
	Key   bool
	// Cause is the list of violations of the embedded message when the
	// violation is "embedded message failed validation".
	Cause []Viol
}

// Model interprets the rules of a schema. It knows nothing about the plugin's
// templates: it works on the schema AST and on reflective messages.
type Model struct {
	Reg *Reg
	Now time.Time
	// FullMatch: patterns have to match the whole string (C++, Java-free).
	FullMatch bool
	// CC: rules C++ does not implement are violations "unimplemented".
	CC bool
	// Java: the same for Java; where the library it relies on decides, or its
	// values are not those of protobuf, the rule is "unsure".
	Java bool
	// Py: the same for Python.
	Py bool
}

const (
	unimplemented = "unimplemented"
	unsure        = "unsure"
)

// Opaque tells whether validation never looks inside the message type.
func (md *Model) opaque(typeName string) bool {
	m := md.Reg.Msgs[typeName]
	return m == nil || m.Ignored || m.Disabled
}

// Eval returns the violations of message m, of type msg.
func (md *Model) Eval(msg *Msg, m protoreflect.Message) []Viol {
	if msg == nil || msg.Disabled || msg.Ignored || !m.IsValid() {
		return nil
	}
	var out []Viol
	for _, f := range msg.Fields {
		if f.Oneof != 0 {
			continue
		}
		out = append(out, full(msg, f.Name, md.evalField(f, m))...)
	}
	for i, o := range msg.Oneofs {
		set := false
		for _, f := range msg.Fields {
			if f.Oneof != i+1 {
				continue
			}
			fd := m.Descriptor().Fields().ByName(protoreflect.Name(f.Name))
			if m.Has(fd) {
				set = true
				out = append(out, full(msg, f.Name, md.evalField(f, m))...)
			}
		}
		if !set && o.Required {
			out = append(out, full(msg, o.Name, []Viol{{Field: GoCamel(o.Name), Rule: "oneof_required"}})...)
		}
	}
	return out
}

func full(msg *Msg, name string, l []Viol) []Viol {
	for i := range l {
		l[i].Full = msg.full + "." + name
	}
	return l
}

func (md *Model) evalField(f *Field, m protoreflect.Message) []Viol {
	fd := m.Descriptor().Fields().ByName(protoreflect.Name(f.Name))
	if fd == nil {
		panic("no field " + f.Name + " in " + string(m.Descriptor().FullName()))
	}
	name := GoCamel(f.Name)
	r := f.Rules
	if r == nil {
		r = &Rules{}
	}
	switch f.Card {
	case "repeated":
		return md.evalList(f, r, name, m.Get(fd).List())
	case "map":
		return md.evalMap(f, r, name, m.Get(fd).Map())
	}
	if f.Kind == "message" {
		return md.evalMsg(f.TypeName, r, name, m.Has(fd), m.Get(fd).Message())
	}
	if f.Opt && !m.Has(fd) {
		return nil // the rules of optional scalars apply if they are set
	}
	return field(name, md.scalar(f, r, m.Get(fd)))
}

func field(name string, rules []string) []Viol {
	var out []Viol
	for _, r := range rules {
		out = append(out, Viol{Field: name, Rule: r})
	}
	return out
}

// evalMsg evaluates the rules of one message value (a field, an item or a map
// value). set is false for an absent value.
func (md *Model) evalMsg(typeName string, r *Rules, name string, set bool, v protoreflect.Message) []Viol {
	var out []Viol
	req := r.Msg != nil && bv(r.Msg.Required)
	switch {
	case r.Type == "any" || r.Type == "duration" || r.Type == "timestamp":
		// message rules cannot be put on these
		req = bv(r.Required)
	case r.Type != "":
		// scalar rules on a wrapper message
		if !set {
			if req {
				return []Viol{{Field: name, Rule: "required"}}
			}
			return nil
		}
		fd := v.Descriptor().Fields().ByName("value")
		k := wrappedKind(typeName)
		return field(name, md.scalar(&Field{Kind: k}, r, v.Get(fd)))
	}
	if !set && req {
		out = append(out, Viol{Field: name, Rule: "required"})
	}
	if !set {
		return out
	}
	switch r.Type {
	case "any":
		u := v.Get(v.Descriptor().Fields().ByName("type_url")).String()
		if len(r.In) > 0 && !inStr(r.In, u) {
			out = append(out, Viol{Field: name, Rule: "in"})
		} else if len(r.NotIn) > 0 && inStr(r.NotIn, u) {
			out = append(out, Viol{Field: name, Rule: "not_in"})
		}
		return out
	case "duration", "timestamp":
		fs := v.Descriptor().Fields()
		s := v.Get(fs.ByName("seconds")).Int()
		n := v.Get(fs.ByName("nanos")).Int()
		if r.Type == "duration" {
			return append(out, field(name, md.duration(r, s, n))...)
		}
		return append(out, field(name, md.timestamp(r, s, n))...)
	}
	if r.Msg != nil && bv(r.Msg.Skip) {
		return out
	}
	if sub := md.Eval(md.Reg.Msgs[typeName], v); len(sub) > 0 {
		out = append(out, Viol{Field: name, Rule: "embedded", Cause: sub})
	}
	return out
}

func (md *Model) evalList(f *Field, r *Rules, name string, l protoreflect.List) []Viol {
	n := l.Len()
	if r.Type != "repeated" {
		r = &Rules{Type: "repeated"}
	}
	if bv(r.IgnoreEmpty) && n == 0 {
		return nil
	}
	out := field(name, sizeRules("items", r.Min, r.Max, n))
	items := r.Items
	if items == nil {
		items = &Rules{}
	}
	seen := map[interface{}]bool{}
	if md.Java && bv(r.Unique) && md.javaUnsureUnique(f, l) || md.Py && bv(r.Unique) && hasNaN(f, l) {
		out = append(out, Viol{Field: name, Rule: unsure})
		r = &Rules{Type: r.Type, Items: r.Items}
	}
	for i := 0; i < n; i++ {
		v := l.Get(i)
		in := fmt.Sprintf("%s[%d]", name, i)
		if bv(r.Unique) {
			var k interface{} = v.Interface()
			if b, ok := k.([]byte); ok {
				k = string(b)
			}
			if seen[k] {
				out = append(out, Viol{Field: in, Rule: "unique"})
			}
			seen[k] = true
		}
		if f.Kind == "message" {
			out = append(out, md.evalMsg(f.TypeName, items, in, v.Message().IsValid(), v.Message())...)
		} else {
			out = append(out, field(in, md.scalar(f, items, v))...)
		}
	}
	return out
}

func (md *Model) evalMap(f *Field, r *Rules, name string, mp protoreflect.Map) []Viol {
	n := mp.Len()
	if r.Type != "map" {
		r = &Rules{Type: "map"}
	}
	if bv(r.IgnoreEmpty) && n == 0 {
		return nil
	}
	out := field(name, sizeRules("pairs", r.Min, r.Max, n))
	if md.Java && bv(r.NoSparse) {
		out = append(out, Viol{Field: name, Rule: unimplemented})
	}
	keys, vals := r.Keys, r.Values
	if keys == nil {
		keys = &Rules{}
	}
	if vals == nil {
		vals = &Rules{}
	}
	mp.Range(func(k protoreflect.MapKey, v protoreflect.Value) bool {
		in := fmt.Sprintf("%s[%v]", name, k.Interface())
		for _, x := range md.scalar(&Field{Kind: f.KeyKind}, keys, k.Value()) {
			out = append(out, Viol{Field: in, Rule: x, Key: true})
		}
		if f.Kind == "message" {
			ok := v.Message().IsValid()
			if bv(r.NoSparse) && !ok {
				out = append(out, Viol{Field: in, Rule: "no_sparse"})
			}
			out = append(out, md.evalMsg(f.TypeName, vals, in, ok, v.Message())...)
		} else {
			out = append(out, field(in, md.scalar(f, vals, v))...)
		}
		return true
	})
	return out
}

func sizeRules(what string, min, max *uint64, n int) []string {
	var out []string
	if min != nil && uint64(n) < *min {
		out = append(out, "min_"+what)
	}
	if max != nil && uint64(n) > *max {
		out = append(out, "max_"+what)
	}
	return out
}

// scalar returns the rules that value v of field f (or an element) breaks.
func (md *Model) scalar(f *Field, r *Rules, v protoreflect.Value) []string {
	switch kindClass(r.Type) {
	case "int":
		if r.Type == "enum" {
			return md.enum(f, r, int64(v.Enum()))
		}
		x := v.Int()
		return md.num(r, x == 0, func(p *Val) int {
			switch {
			case x < p.I:
				return -1
			case x > p.I:
				return 1
			}
			return 0
		})
	case "uint":
		x := v.Uint()
		return md.num(r, x == 0, func(p *Val) int {
			switch {
			case x < p.U:
				return -1
			case x > p.U:
				return 1
			}
			return 0
		})
	case "float":
		x := v.Float()
		if md.Java && javaUnsureFloat(r, x) || md.Py && math.IsNaN(x) {
			return []string{unsure}
		}
		return md.num(r, x == 0, func(p *Val) int {
			y := p.Float()
			if r.Type == "float" {
				y = float64(float32(y))
			}
			switch {
			case x < y:
				return -1
			case x > y:
				return 1
			case x == y:
				return 0
			}
			return 2 // NaN: unordered
		})
	case "bool":
		if r.Const != nil && v.Bool() != r.Const.B {
			return []string{"const"}
		}
	case "str":
		if r.Type == "string" {
			return md.str(r, v.String())
		}
		return md.bytes(r, v.Bytes())
	}
	return nil
}

// num evaluates const, the bounds and the lists. cmp compares the value with
// a parameter.
func (md *Model) num(r *Rules, zero bool, cmp func(*Val) int) []string {
	if bv(r.IgnoreEmpty) && zero {
		return nil
	}
	var out []string
	if r.Const != nil && cmp(r.Const) != 0 {
		out = append(out, "const")
	}
	out = append(out, bounds(r, cmp, func(a, b *Val) bool {
		switch kindClass(r.Type) {
		case "int":
			return a.I > b.I
		case "uint":
			return a.U > b.U
		case "float":
			if r.Type == "float" {
				return float32(a.Float()) > float32(b.Float())
			}
			return a.Float() > b.Float()
		}
		return durCmp(a.D, b.D) > 0
	})...)
	if len(r.In) > 0 {
		hit := false
		for i := range r.In {
			hit = hit || cmp(&r.In[i]) == 0
		}
		if !hit {
			out = append(out, "in")
		}
	}
	for i := range r.NotIn {
		if cmp(&r.NotIn[i]) == 0 {
			out = append(out, "not_in")
			break
		}
	}
	return out
}

// bounds: with one bound the value has to satisfy it; with two it has to
// satisfy both when the upper bound is above the lower one, and at least one
// of them (the "outside" form) otherwise.
func bounds(r *Rules, cmp func(*Val) int, greater func(a, b *Val) bool) []string {
	up, lo := r.Lt, r.Gt
	upOK, loOK := true, true
	if r.Lt != nil {
		upOK = cmp(r.Lt) == -1
	} else if r.Lte != nil {
		up = r.Lte
		upOK = cmp(r.Lte) == -1 || cmp(r.Lte) == 0
	}
	if r.Gt != nil {
		loOK = cmp(r.Gt) == 1
	} else if r.Gte != nil {
		lo = r.Gte
		loOK = cmp(r.Gte) == 1 || cmp(r.Gte) == 0
	}
	ok := upOK && loOK
	if up != nil && lo != nil && !greater(up, lo) {
		ok = upOK || loOK
	}
	if !ok {
		return []string{"range"}
	}
	return nil
}

func (md *Model) enum(f *Field, r *Rules, x int64) []string {
	out := md.num(&Rules{Type: "enum", Const: r.Const, In: r.In, NotIn: r.NotIn}, false, func(p *Val) int {
		switch {
		case x < p.I:
			return -1
		case x > p.I:
			return 1
		}
		return 0
	})
	if bv(r.DefinedOnly) {
		e := md.Reg.Enums[f.TypeName]
		if e == nil {
			panic("unknown enum " + f.TypeName)
		}
		def := false
		for _, v := range e.Vals {
			def = def || int64(v.Num) == x
		}
		if !def {
			out = append(out, "defined_only")
		}
	}
	return out
}

func inStr(l []Val, s string) bool {
	for _, v := range l {
		if string(v.S) == s {
			return true
		}
	}
	return false
}

func (md *Model) str(r *Rules, s string) []string {
	if bv(r.IgnoreEmpty) && s == "" {
		return nil
	}
	var out []string
	bad := func(c bool, rule string) {
		if c {
			out = append(out, rule)
		}
	}
	runes := uint64(utf8.RuneCountInString(s))
	nb := uint64(len(s))
	bad(r.Const != nil && s != string(r.Const.S), "const")
	bad(len(r.In) > 0 && !inStr(r.In, s), "in")
	bad(len(r.NotIn) > 0 && inStr(r.NotIn, s), "not_in")
	bad(r.Len != nil && runes != *r.Len, "len")
	bad(r.MinLen != nil && runes < *r.MinLen, "min_len")
	bad(r.MaxLen != nil && runes > *r.MaxLen, "max_len")
	bad(r.LenBytes != nil && nb != *r.LenBytes, "len_bytes")
	bad(r.MinBytes != nil && nb < *r.MinBytes, "min_bytes")
	bad(r.MaxBytes != nil && nb > *r.MaxBytes, "max_bytes")
	bad(r.Prefix != nil && !bytes.HasPrefix([]byte(s), r.Prefix.S), "prefix")
	bad(r.Suffix != nil && !bytes.HasSuffix([]byte(s), r.Suffix.S), "suffix")
	bad(r.Contains != nil && !bytes.Contains([]byte(s), r.Contains.S), "contains")
	bad(r.NotContains != nil && bytes.Contains([]byte(s), r.NotContains.S), "not_contains")
	if md.CC && (r.WellKnown == "email" || r.WellKnown == "uri" || r.WellKnown == "uri_ref") {
		bad(true, unimplemented)
	} else if md.Java && javaUnsureText(r.WellKnown, s) || md.Py && pyUnsureText(r.WellKnown, s) {
		bad(true, unsure)
	} else {
		bad(r.WellKnown != "" && !WellKnownOK(r.WellKnown, s), r.WellKnown)
	}
	bad(r.WKRegex != "" && !HeaderOK(r.WKRegex, r.Strict == nil || *r.Strict, s), "well_known_regex")
	if md.Py && r.Pattern != nil && pyUnsurePattern(string(r.Pattern.S), s, true) {
		bad(true, unsure)
	} else {
		bad(r.Pattern != nil && !md.match(string(r.Pattern.S), []byte(s)), "pattern")
	}
	return out
}

var reCache = map[string]*regexp.Regexp{}

func (md *Model) match(p string, s []byte) bool {
	if md.FullMatch {
		p = `\A(?:` + p + `)\z`
	}
	re := reCache[p]
	if re == nil {
		re = regexp.MustCompile(p)
		reCache[p] = re
	}
	return re.Match(s)
}

func (md *Model) bytes(r *Rules, s []byte) []string {
	if bv(r.IgnoreEmpty) && len(s) == 0 {
		return nil
	}
	var out []string
	bad := func(c bool, rule string) {
		if c {
			out = append(out, rule)
		}
	}
	n := uint64(len(s))
	bad(r.Const != nil && string(s) != string(r.Const.S), "const")
	bad(len(r.In) > 0 && !inStr(r.In, string(s)), "in")
	bad(len(r.NotIn) > 0 && inStr(r.NotIn, string(s)), "not_in")
	bad(r.Len != nil && n != *r.Len, "len")
	bad(r.MinLen != nil && n < *r.MinLen, "min_len")
	bad(r.MaxLen != nil && n > *r.MaxLen, "max_len")
	bad(r.Prefix != nil && !strings.HasPrefix(string(s), string(r.Prefix.S)), "prefix")
	bad(r.Suffix != nil && !strings.HasSuffix(string(s), string(r.Suffix.S)), "suffix")
	bad(r.Contains != nil && !strings.Contains(string(s), string(r.Contains.S)), "contains")
	if md.Java && r.Pattern != nil && !utf8.Valid(s) || md.Py && r.Pattern != nil && pyUnsurePattern(string(r.Pattern.S), string(s), false) {
		bad(true, unsure)
	} else {
		bad(r.Pattern != nil && !md.match(string(r.Pattern.S), s), "pattern")
	}
	if md.CC && r.WellKnown != "" {
		return append(out, unimplemented)
	}
	switch r.WellKnown {
	case "ip":
		bad(n != 4 && n != 16, "ip")
	case "ipv4":
		bad(n != 4, "ipv4")
	case "ipv6":
		bad(n != 16, "ipv6")
	}
	return out
}

func isAlnum(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}

// Hostname: RFC 1034 labels, optional final dot, at most 253 characters.
func Hostname(s string) bool {
	if len(s) > 253 {
		return false
	}
	if strings.HasSuffix(s, ".") {
		s = s[:len(s)-1]
	}
	for _, l := range strings.Split(s, ".") {
		if len(l) == 0 || len(l) > 63 || l[0] == '-' || l[len(l)-1] == '-' {
			return false
		}
		for i := 0; i < len(l); i++ {
			if !isAlnum(l[i]) && l[i] != '-' {
				return false
			}
		}
	}
	return true
}

// V4Mapped: an IPv6 text form of an IPv4 address. Whether ipv4 or ipv6 rules
// take it differs between the languages and is not specified.
func V4Mapped(s string) bool {
	a, err := netip.ParseAddr(s)
	return err == nil && a.Is4In6()
}

func ipFamily(s string) int {
	a, err := netip.ParseAddr(s)
	if err != nil || a.Zone() != "" {
		return 0
	}
	if a.Is4() || a.Is4In6() {
		return 4
	}
	return 6
}

func isHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

func WellKnownOK(wk, s string) bool {
	switch wk {
	case "ip":
		return ipFamily(s) != 0
	case "ipv4":
		return ipFamily(s) == 4
	case "ipv6":
		return ipFamily(s) == 6
	case "hostname":
		return Hostname(s)
	case "address":
		return Hostname(s) || ipFamily(s) != 0
	case "email":
		a, err := mail.ParseAddress(s)
		if err != nil {
			return false
		}
		at := strings.LastIndexByte(a.Address, '@')
		return len(a.Address) <= 254 && at <= 64 && Hostname(a.Address[at+1:])
	case "uri":
		u, err := url.Parse(s)
		return err == nil && u.Scheme != ""
	case "uri_ref":
		_, err := url.Parse(s)
		return err == nil
	case "uuid":
		if len(s) != 36 {
			return false
		}
		for i := 0; i < len(s); i++ {
			if i == 8 || i == 13 || i == 18 || i == 23 {
				if s[i] != '-' {
					return false
				}
			} else if !isHex(s[i]) {
				return false
			}
		}
		return true
	}
	panic("unknown well known rule " + wk)
}

// HeaderOK: RFC 7230 header names (with the leading colon of HTTP/2 pseudo
// headers) and values; not strict only forbids NUL, CR and LF.
func HeaderOK(rx string, strict bool, s string) bool {
	if !strict {
		return !strings.ContainsAny(s, "\x00\r\n")
	}
	switch rx {
	case "HTTP_HEADER_NAME":
		s = strings.TrimPrefix(s, ":")
		if s == "" {
			return false
		}
		for i := 0; i < len(s); i++ {
			if !isAlnum(s[i]) && !strings.ContainsRune("!#$%&'*+-.^_`|~", rune(s[i])) || s[i] >= 0x80 {
				return false
			}
		}
		return true
	case "HTTP_HEADER_VALUE":
		for i := 0; i < len(s); i++ {
			if s[i] < 0x20 && s[i] != '\t' || s[i] == 0x7f {
				return false
			}
		}
		return true
	}
	panic("unknown regex " + rx)
}

// ---- well known time types ---------------------------------------------

const (
	maxDurSec = 315576000000
	minTsSec  = -62135596800
	maxTsSec  = 253402300799
)

func durValid(s, n int64) bool {
	return s >= -maxDurSec && s <= maxDurSec && n > -1e9 && n < 1e9 &&
		!(s > 0 && n < 0) && !(s < 0 && n > 0)
}

func tsValid(s, n int64) bool {
	return s >= minTsSec && s <= maxTsSec && n >= 0 && n < 1e9
}

func durCmp(a, b [2]int64) int {
	for i := 0; i < 2; i++ {
		if a[i] < b[i] {
			return -1
		}
		if a[i] > b[i] {
			return 1
		}
	}
	return 0
}

func (md *Model) duration(r *Rules, s, n int64) []string {
	if r.Const == nil && r.Lt == nil && r.Lte == nil && r.Gt == nil && r.Gte == nil && len(r.In) == 0 && len(r.NotIn) == 0 {
		return nil
	}
	if !durValid(s, n) {
		if md.Py {
			return []string{unsure}
		}
		return []string{"valid"}
	}
	return md.num(r, false, func(p *Val) int { return durCmp([2]int64{s, n}, p.D) })
}

func (md *Model) timestamp(r *Rules, s, n int64) []string {
	if r.Const == nil && r.Lt == nil && r.Lte == nil && r.Gt == nil && r.Gte == nil && !bv(r.LtNow) && !bv(r.GtNow) && r.Within == nil {
		return nil
	}
	if md.CC {
		return []string{unimplemented}
	}
	if !tsValid(s, n) {
		if md.Py {
			return []string{unsure}
		}
		return []string{"valid"}
	}
	if (md.Java || md.Py) && NearNow(r, s, n, md.Now, 3600) {
		return []string{unsure}
	}
	out := md.num(r, false, func(p *Val) int { return durCmp([2]int64{s, n}, p.D) })
	now := [2]int64{md.Now.Unix(), int64(md.Now.Nanosecond())}
	v := [2]int64{s, n}
	ltNow, gtNow := bv(r.LtNow), bv(r.GtNow)
	bad := ltNow && durCmp(v, now) >= 0 || gtNow && durCmp(v, now) <= 0
	if r.Within != nil {
		lo := timeAdd(now, r.Within.D, -1)
		hi := timeAdd(now, r.Within.D, 1)
		bad = bad || durCmp(v, lo) < 0 || durCmp(v, hi) > 0
	}
	if bad {
		out = append(out, "now")
	}
	return out
}

func timeAdd(t, d [2]int64, sign int64) [2]int64 {
	s, n := t[0]+sign*d[0], t[1]+sign*d[1]
	if n < 0 {
		s, n = s-1, n+1e9
	}
	if n >= 1e9 {
		s, n = s+1, n-1e9
	}
	return [2]int64{s, n}
}

// NearNow tells whether a verdict on v under r depends on the reading of the
// clock more than margin allows.
func NearNow(r *Rules, s, n int64, now time.Time, margin int64) bool {
	if r.LtNow == nil && r.GtNow == nil && r.Within == nil {
		return false
	}
	t := now.Unix()
	pts := []int64{t}
	if r.Within != nil {
		pts = append(pts, t-r.Within.D[0], t+r.Within.D[0])
	}
	for _, p := range pts {
		if d := s - p; d > -margin && d < margin {
			return true
		}
	}
	return false
}

var _ = math.Inf

// split takes the violations "unimplemented" and "unsure" out of the others.
func split(l []Viol) (rest []Viol, unimpl, maybe bool) {
	for _, v := range l {
		if v.Rule == unimplemented {
			unimpl = true
			continue
		}
		if v.Rule == unsure {
			maybe = true
			continue
		}
		if v.Cause != nil {
			sub, u, m := split(v.Cause)
			unimpl = unimpl || u
			maybe = maybe || m
			if len(sub) == 0 {
				continue
			}
			v.Cause = sub
		}
		rest = append(rest, v)
	}
	return rest, unimpl, maybe
}

// mayRefuse: validating a message of the type can come upon a rule that C++
// does not implement.
func (md *Model) mayRefuse(msg *Msg, seen map[string]bool) bool {
	if msg == nil || msg.Disabled || msg.Ignored || seen[msg.full] {
		return false
	}
	seen[msg.full] = true
	var rules func(r *Rules) bool
	rules = func(r *Rules) bool {
		if r == nil {
			return false
		}
		if r.WellKnown == "email" || r.WellKnown == "uri" || r.WellKnown == "uri_ref" || r.Type == "bytes" && r.WellKnown != "" || r.NoSparse != nil {
			return true
		}
		if r.Type == "timestamp" && (r.Const != nil || r.Lt != nil || r.Lte != nil || r.Gt != nil || r.Gte != nil || r.LtNow != nil || r.GtNow != nil || r.Within != nil) {
			return true
		}
		return rules(r.Items) || rules(r.Keys) || rules(r.Values)
	}
	for _, f := range msg.Fields {
		if rules(f.Rules) || f.Kind == "message" && md.mayRefuse(md.Reg.Msgs[f.TypeName], seen) {
			return true
		}
	}
	return false
}

// ---- where Java is not compared with the reference -------------------------

// javaUnsureFloat: NaN, and the two zeros, which Java orders and tells apart.
func javaUnsureFloat(r *Rules, x float64) bool {
	if math.IsNaN(x) {
		return true
	}
	if x != 0 {
		return false
	}
	if math.Signbit(x) {
		return true
	}
	for _, p := range r.allParams() {
		if y := p.Float(); y == 0 && math.Signbit(y) {
			return true
		}
	}
	return false
}

// javaUnsureUnique: those, and enum numbers without a name, which Java does
// not tell apart.
func (md *Model) javaUnsureUnique(f *Field, l protoreflect.List) bool {
	unknown := map[int64]bool{}
	for i := 0; i < l.Len(); i++ {
		switch v := l.Get(i); f.Kind {
		case "float", "double":
			if x := v.Float(); math.IsNaN(x) || x == 0 && math.Signbit(x) {
				return true
			}
		case "enum":
			def := false
			for _, e := range md.Reg.Enums[f.TypeName].Vals {
				def = def || int64(e.Num) == int64(v.Enum())
			}
			if !def {
				unknown[int64(v.Enum())] = true
			}
		}
	}
	return len(unknown) > 1
}

var (
	plainEmail = regexp.MustCompile(`^([A-Za-z]+( [A-Za-z]+)* <)?([A-Za-z0-9]{1,64})@([A-Za-z0-9.-]+)(>?)$`)
	plainURI   = regexp.MustCompile(`^[a-z][a-z0-9+.-]*://[a-z0-9]+(\.[a-z0-9]+)*(:[0-9]{1,4})?(/[A-Za-z0-9/._~-]*)?(\?[A-Za-z0-9=&]*)?(#[A-Za-z0-9]*)?$`)
	plainRef   = regexp.MustCompile(`^[A-Za-z0-9/._~-]+$`)
)

// javaUnsureText: commons-validator, and java.net.URI, decide about formats;
// only plain cases are compared.
func javaUnsureText(wk, s string) bool {
	switch wk {
	case "email":
		if !strings.Contains(s, "@") {
			return false
		}
		m := plainEmail.FindStringSubmatch(s)
		return m == nil || (m[1] == "") != (m[5] == "") || len(s) > 200 || strings.HasSuffix(m[4], ".")
	case "uri", "uri_ref":
		return !plainURI.MatchString(s) && (!plainRef.MatchString(s) || strings.HasPrefix(s, "//"))
	case "ipv4", "ipv6":
		return V4Mapped(s)
	}
	return false
}

// ---- where Python is not compared with the reference -----------------------

func hasNaN(f *Field, l protoreflect.List) bool {
	if f.Kind != "float" && f.Kind != "double" {
		return false
	}
	for i := 0; i < l.Len(); i++ {
		if math.IsNaN(l.Get(i).Float()) {
			return true
		}
	}
	return false
}

// pyUnsureText: validate_email and Python's library decide about formats; only
// plain cases are compared.
func pyUnsureText(wk, s string) bool {
	switch wk {
	case "email", "uri", "uri_ref":
		return javaUnsureText(wk, s)
	case "ip", "ipv4", "ipv6", "address":
		return V4Mapped(s) && (wk == "ipv4" || wk == "ipv6") || strings.Contains(s, "%")
	}
	return false
}

// pyUnsurePattern: in Python $ matches before a final newline, too, \w and its
// like match more than they do in RE2, and bytes are matched one by one.
func pyUnsurePattern(p, s string, text bool) bool {
	classes := strings.Contains(p, "(?i)")
	for i := 0; i+1 < len(p); i++ {
		if p[i] == '\\' {
			i++
			classes = classes || strings.IndexByte("wWdDsSbB", p[i]) >= 0
		}
	}
	for _, c := range []byte(s) {
		if c >= 0x80 && (classes || !text) || classes && (c == 0x0b || c >= 0x1c && c <= 0x1f) {
			return true
		}
	}
	return strings.HasSuffix(s, "\n")
}
