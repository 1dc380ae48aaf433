package pv

import (
	"math"
	"strings"
	"time"
	"unicode/utf8"

	"google.golang.org/protobuf/reflect/protoreflect"
)

func (r *Rules) allParams() []Val {
	var out []Val
	for _, p := range []*Val{r.Const, r.Lt, r.Lte, r.Gt, r.Gte} {
		if p != nil {
			out = append(out, *p)
		}
	}
	out = append(out, r.In...)
	return append(out, r.NotIn...)
}

// scalarVal draws a value for a field of the given kind, close to what the
// rules speak about.
func (g *G) scalarVal(md *Model, f *Field, r *Rules) protoreflect.Value {
	if r == nil {
		r = &Rules{}
	}
	ps := r.allParams()
	// bounds let NaN pass, a known finding
	nan := r.Lt == nil && r.Lte == nil && r.Gt == nil && r.Gte == nil
	switch f.Kind {
	case "int32", "sint32", "sfixed32":
		return protoreflect.ValueOfInt32(int32(g.intVal(f.Kind, ps)))
	case "int64", "sint64", "sfixed64":
		return protoreflect.ValueOfInt64(g.intVal(f.Kind, ps))
	case "uint32", "fixed32":
		return protoreflect.ValueOfUint32(uint32(g.uintVal(f.Kind, ps)))
	case "uint64", "fixed64":
		return protoreflect.ValueOfUint64(g.uintVal(f.Kind, ps))
	case "float":
		return protoreflect.ValueOfFloat32(float32(g.floatVal(f.Kind, ps, nan)))
	case "double":
		return protoreflect.ValueOfFloat64(g.floatVal(f.Kind, ps, nan))
	case "bool":
		return protoreflect.ValueOfBool(g.P(50))
	case "string":
		return protoreflect.ValueOfString(g.strVal(r))
	case "bytes":
		return protoreflect.ValueOfBytes(g.bytesVal(r))
	case "enum":
		e := md.Reg.Enums[f.TypeName]
		var x int64
		switch g.Intn(6) {
		case 0:
			x = int64(int32(g.Uint32()))
		case 1:
			x = int64(g.Intn(14)) - 4
		case 2:
			if len(ps) > 0 {
				x = pick(g, ps).I + int64(g.Intn(3)) - 1
			}
		default:
			x = int64(pick(g, e.Vals).Num)
		}
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(int32(x)))
	}
	panic("no values for kind " + f.Kind)
}

func (g *G) intVal(kind string, ps []Val) int64 {
	lo, hi := intRange(kind)
	var x int64
	switch n := g.Intn(10); {
	case n < 6 && len(ps) > 0:
		x = pick(g, ps).I
		d := int64(g.Intn(3)) - 1
		if d < 0 && x > lo || d > 0 && x < hi {
			x += d
		}
	case n == 6:
		x = pick(g, []int64{0, 0, 1, -1, lo, hi})
	case n == 7 && len(ps) > 1:
		a, b := pick(g, ps).I, pick(g, ps).I
		x = a/2 + b/2
	default:
		x = g.numParam(kind).I
	}
	if x < lo || x > hi {
		return lo
	}
	return x
}

func (g *G) uintVal(kind string, ps []Val) uint64 {
	hi := uintMax(kind)
	switch n := g.Intn(10); {
	case n < 6 && len(ps) > 0:
		x := pick(g, ps).U
		switch d := g.Intn(3); {
		case d == 1 && x > 0:
			x--
		case d == 2 && x < hi:
			x++
		}
		return x
	case n == 6:
		return pick(g, []uint64{0, 0, 1, hi})
	case n == 7 && len(ps) > 1:
		a, b := pick(g, ps).U, pick(g, ps).U
		return a/2 + b/2
	}
	return g.numParam(kind).U
}

func (g *G) floatVal(kind string, ps []Val, nan bool) float64 {
	switch n := g.Intn(10); {
	case n < 6 && len(ps) > 0:
		x := pick(g, ps).Float()
		d := g.Intn(3)
		to := math.Inf(2*d - 3)
		if kind == "float" {
			y := float32(x)
			if d > 0 {
				y = math.Nextafter32(y, float32(to))
			}
			if math.IsInf(float64(y), 0) {
				y = float32(x)
			}
			return float64(y)
		}
		if d > 0 {
			x = math.Nextafter(x, to)
		}
		return x
	case n == 6 && nan && g.P(30):
		return math.NaN()
	case n == 6:
		return pick(g, []float64{0, math.Copysign(0, -1), 1, -1, math.MaxFloat32, math.Inf(1), math.Inf(-1)})
	case n == 7 && len(ps) > 1:
		return pick(g, ps).Float()/2 + pick(g, ps).Float()/2
	}
	return g.numParam(kind).Float()
}

func (g *G) fillRunes(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if g.P(70) {
			b.WriteRune(pick(g, asciiPool))
		} else {
			b.WriteRune(pick(g, runePool))
		}
	}
	return b.String()
}

func (g *G) strVal(r *Rules) string {
	if r.Type != "string" {
		return g.str(8)
	}
	if r.WellKnown != "" && g.P(85) {
		s := g.wellKnown(r.WellKnown)
		if r.Suffix != nil && g.P(40) {
			s += string(r.Suffix.S)
		}
		return s
	}
	if r.WKRegex != "" && g.P(85) {
		return g.header(r.WKRegex)
	}
	if r.Pattern != nil && g.P(80) {
		return g.patternVal(string(r.Pattern.S))
	}
	ps := r.allParams()
	for _, v := range []*Val{r.Prefix, r.Suffix, r.Contains, r.NotContains} {
		if v != nil && g.P(30) {
			ps = append(ps, *v)
		}
	}
	switch n := g.Intn(10); {
	case n < 3 && len(ps) > 0:
		return g.mutStr(string(pick(g, ps).S))
	case n == 3:
		return ""
	case n == 4:
		return g.str(12)
	}
	// a string of a chosen size around the affixes
	pre, suf, mid := "", "", ""
	aff := func(v *Val) string {
		if v == nil {
			return ""
		}
		s := string(v.S)
		if g.P(12) {
			s = g.mutStr(s)
		}
		return s
	}
	pre, suf, mid = aff(r.Prefix), aff(r.Suffix), aff(r.Contains)
	if r.NotContains != nil && g.P(30) {
		mid += aff(r.NotContains)
	}
	var want []uint64
	for _, p := range []*uint64{r.Len, r.MinLen, r.MaxLen, r.LenBytes, r.MinBytes, r.MaxBytes} {
		if p != nil {
			want = append(want, *p)
		}
	}
	core := pre + mid + suf
	if len(want) == 0 {
		return pre + g.str(3) + mid + g.str(3) + suf
	}
	n := int(pick(g, want)) + g.Intn(3) - 1
	byBytes := (r.LenBytes != nil || r.MinBytes != nil || r.MaxBytes != nil) && g.P(50)
	have := utf8.RuneCountInString(core)
	if byBytes {
		have = len(core)
	}
	if have >= n {
		// overlapping affixes
		if pre == suf && mid == "" && g.P(50) {
			return pre
		}
		return core
	}
	fill := g.fillRunes(n - have)
	if byBytes {
		for len(fill) > n-have {
			_, w := utf8.DecodeLastRuneInString(fill)
			fill = fill[:len(fill)-w]
		}
		for len(fill) < n-have {
			fill += "k"
		}
	}
	rs := []rune(fill)
	cut := g.Intn(len(rs) + 1)
	return pre + string(rs[:cut]) + mid + string(rs[cut:]) + suf
}

func (g *G) mutStr(s string) string {
	rs := []rune(s)
	switch g.Intn(7) {
	case 0:
		return s + string(pick(g, runePool))
	case 1:
		if len(rs) > 0 {
			i := g.Intn(len(rs))
			return string(rs[:i]) + string(rs[i+1:])
		}
	case 2:
		if len(rs) > 0 {
			rs[g.Intn(len(rs))] = pick(g, runePool)
			return string(rs)
		}
	case 3:
		return strings.ToUpper(s)
	case 4:
		return string(pick(g, runePool)) + s
	}
	return s
}

func (g *G) label() string {
	n := 1 + g.Intn(10)
	if g.P(8) {
		n = pick(g, []int{62, 63, 64, 65})
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte(pick(g, []byte("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-")))
	}
	s := b.String()
	if g.P(80) {
		s = strings.Trim(s, "-")
		if s == "" {
			s = "a"
		}
	}
	return s
}

func (g *G) hostname() string {
	n := 1 + g.Intn(4)
	if g.P(6) {
		n = 130 // around 253
	}
	var l []string
	for i := 0; i < n; i++ {
		if n > 100 {
			l = append(l, "a")
		} else {
			l = append(l, g.label())
		}
	}
	s := strings.Join(l, ".")
	if n > 100 {
		s = s[:min(len(s), 249+g.Intn(8))]
	} else if g.P(5) {
		s = strings.Repeat("abcdefg.", 30) + strings.Repeat("x", 8+g.Intn(8))
	}
	switch g.Intn(16) {
	case 0:
		s += "."
	case 1:
		s += ".."
	case 2:
		s = "." + s
	case 3:
		i := g.Intn(len(s) + 1)
		s = s[:i] + pick(g, []string{"_", "é", " ", "!", "..", "-.", ".-", "\x00", "\u212a", "\n"}) + s[i:]
	}
	return s
}

func (g *G) ip4() string {
	var l []string
	for i := 0; i < 4; i++ {
		l = append(l, itoa(g.Intn(256)))
	}
	switch g.Intn(10) {
	case 0:
		l = l[:3]
	case 1:
		l = append(l, "1")
	case 2:
		l[g.Intn(4)] = pick(g, []string{"256", "", "-1", "1a", " 1", "999"})
	case 3:
		return strings.Join(l, ".") + pick(g, []string{".", "/24", ":80", " "})
	}
	return strings.Join(l, ".")
}

func (g *G) ip6() string {
	n := 8
	var l []string
	for i := 0; i < n; i++ {
		h := pick(g, []string{"0", "1", "ab", "ffff", "2001", "DB8", "00a0", itoa(g.Intn(10000))})
		l = append(l, h)
	}
	switch g.Intn(9) {
	case 0:
		l = l[:7]
	case 1:
		l = append(l, "1")
	case 2:
		l[g.Intn(8)] = pick(g, []string{"g", "12345", "-1"})
	case 3:
		return "[" + strings.Join(l, ":") + "]"
	case 4, 5:
		i := 1 + g.Intn(5)
		return strings.Join(l[:i], ":") + "::" + strings.Join(l[i+2:], ":")
	case 6:
		return pick(g, []string{"::", "::1", "fe80::1", "1::", "::2:3", ":::", "1::2::3", "2001:db8::8a2e:370:7334"})
	}
	return strings.Join(l, ":")
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	var b []byte
	for ; n > 0; n /= 10 {
		b = append([]byte{byte('0' + n%10)}, b...)
	}
	return string(b)
}

func (g *G) wellKnown(wk string) string {
	for {
		s := g.wellKnown1(wk)
		if !V4Mapped(s) && !excludedFormat(wk, s) {
			return s
		}
	}
}

// excludedFormat: inputs on which the rule's meaning is not specified.
func excludedFormat(wk, s string) bool {
	// IPv6 zones, IPv4 octets with leading zeros
	return strings.Contains(s, "%") && wk != "uri" && wk != "uri_ref"
}

func (g *G) wellKnown1(wk string) string {
	if g.P(4) {
		return g.str(10)
	}
	switch wk {
	case "hostname":
		if g.P(5) {
			return ""
		}
		return g.hostname()
	case "ip", "ipv4", "ipv6":
		if g.P(50) {
			return g.ip4()
		}
		return g.ip6()
	case "address":
		switch g.Intn(4) {
		case 0:
			return g.ip4()
		case 1:
			return g.ip6()
		}
		return g.hostname()
	case "email":
		loc := func() string {
			n := 1 + g.Intn(10)
			if g.P(15) {
				n = 60 + g.Intn(8)
			}
			var b strings.Builder
			for i := 0; i < n; i++ {
				b.WriteByte(pick(g, []byte("abcXYZ019+_-!#$&'*/=?^`{|}~")))
			}
			s := b.String()
			if n > 4 && g.P(30) {
				s = s[:2] + "." + s[3:]
			}
			return s
		}
		l, h := loc(), g.hostname()
		switch g.Intn(14) {
		case 0:
			return l
		case 1:
			return l + "@"
		case 2:
			return "@" + h
		case 3:
			return l + "@" + h + "@x"
		case 4:
			return "\"" + pick(g, []string{"a b", "a@b", "x"}) + "\"@" + h
		case 5:
			return "Foo Bar <" + l + "@" + h + ">"
		case 6:
			return l + " @" + h
		case 7:
			return l + ".@" + h
		case 8:
			return l + "@" + strings.Repeat("abcdefghi.", 19) + strings.Repeat("y", g.Intn(12)+40)
		}
		return l + "@" + h
	case "uri", "uri_ref":
		host := pick(g, []string{"example.com", "EXAMPLE.org:80", "[::1]:8080", "user:pw@h", "1.2.3.4", "h:", ""})
		path := pick(g, []string{"", "/", "/a/b", "/a%20b", "/%zz", "/a b", "a:b", "/é", "//x", "?q=1", "#frag", "/x?y=z#w", "/\x7f"})
		switch g.Intn(9) {
		case 0:
			return path
		case 1:
			return "//" + host + path
		case 2:
			return pick(g, []string{"mailto:a@b.c", "urn:isbn:1", "tel:+1", "data:,x", ":", ":foo", "1http://x", "http", "h t://x", "a.b+c-d:e", "://x", "http://[::1", "http://a b/", "http://h:x/"})
		}
		return pick(g, []string{"http", "https", "ftp", "HTTP", "a+b"}) + "://" + host + path
	case "uuid":
		var b strings.Builder
		for _, n := range []int{8, 4, 4, 4, 12} {
			if b.Len() > 0 {
				b.WriteByte('-')
			}
			for i := 0; i < n; i++ {
				b.WriteByte(pick(g, []byte("0123456789abcdefABCDEF")))
			}
		}
		s := b.String()
		i := g.Intn(len(s))
		switch g.Intn(10) {
		case 0:
			return s[:i] + s[i+1:]
		case 1:
			return s[:i] + pick(g, []string{"g", "G", "-", " ", "0", "z"}) + s[i+1:]
		case 2:
			return "{" + s + "}"
		case 3:
			return strings.ReplaceAll(s, "-", "")
		case 4:
			return s + pick(g, []string{"\n", "0", " ", "-"})
		case 5:
			return pick(g, []string{"\n", "0", " ", "urn:uuid:"}) + s
		}
		return s
	}
	panic(wk)
}

func (g *G) header(rx string) string {
	n := g.Intn(8)
	if rx == "HTTP_HEADER_NAME" && n == 0 && g.P(60) {
		n = 1
	}
	var b strings.Builder
	if rx == "HTTP_HEADER_NAME" && g.P(25) {
		b.WriteByte(':')
	}
	bad := g.P(35)
	for i := 0; i < n; i++ {
		switch {
		case bad && g.P(30):
			b.WriteRune(pick(g, []rune("\x00\x01\x08\t\n\v\r\x1f \"(),/:;<=>?@[\\]{}\x7f\u0080éж")))
		case rx == "HTTP_HEADER_VALUE" && g.P(40):
			b.WriteRune(pick(g, []rune(" \t~!/:é日\"()")))
		default:
			b.WriteByte(pick(g, []byte("azAZ09!#$%&'*+-.^_|~`")))
		}
	}
	return b.String()
}

var patternVals = []string{"", "a", "aa", "aaab", "abc", "abcd", "foo", "FOO bar", "foobar", "foobazfoo", "12", "123", "1234", "1",
	"é", "éé", "日本", "a.b", "aXb", "a\nc", "abc", "xyz", "xxz", "\"x\"", "x", " w ", " w", "word", "ac", "bc", "c", "\\", "\x1f", "b", "a1c", "z", "zz\n", "a foo b", "x\nz", "\n"}

func (g *G) patternVal(p string) string {
	s := pick(g, patternVals)
	if g.P(30) {
		s = g.mutStr(s)
	}
	if g.P(15) {
		s += pick(g, patternVals)
	}
	return s
}

func (g *G) bytesVal(r *Rules) []byte {
	if r.Type != "bytes" {
		return g.bytes(6)
	}
	if r.WellKnown != "" {
		switch g.Intn(8) {
		case 0:
			return g.bytes(20)
		case 1:
			return nil
		case 2, 3, 4:
			return append(make([]byte, 0), g.raw(4)...)
		case 5:
			return g.raw(pick(g, []int{3, 5, 15, 17, 8}))
		}
		b := g.raw(16)
		b[0] |= 0x20 // never a mapped IPv4 address
		return b
	}
	if r.Pattern != nil && g.P(70) {
		return []byte(g.patternVal(""))
	}
	ps := r.allParams()
	for _, v := range []*Val{r.Prefix, r.Suffix, r.Contains} {
		if v != nil && g.P(30) {
			ps = append(ps, *v)
		}
	}
	switch n := g.Intn(10); {
	case n < 4 && len(ps) > 0:
		b := append([]byte(nil), pick(g, ps).S...)
		switch g.Intn(5) {
		case 0:
			return append(b, g.raw(1)...)
		case 1:
			if len(b) > 0 {
				return b[:len(b)-1]
			}
		case 2:
			if len(b) > 0 {
				b[g.Intn(len(b))] ^= byte(1 << uint(g.Intn(8)))
			}
		}
		return b
	case n == 4:
		return g.bytes(10)
	case n == 5:
		return nil
	}
	aff := func(v *Val) []byte {
		if v == nil || g.P(8) {
			return nil
		}
		return v.S
	}
	pre, mid, suf := aff(r.Prefix), aff(r.Contains), aff(r.Suffix)
	core := len(pre) + len(mid) + len(suf)
	n := g.Intn(4)
	for _, p := range []*uint64{r.Len, r.MinLen, r.MaxLen} {
		if p != nil && g.P(60) {
			n = int(*p) + g.Intn(3) - 1 - core
		}
	}
	if n < 0 {
		n = 0
	}
	var out []byte
	out = append(out, pre...)
	k := g.Intn(n + 1)
	out = append(out, g.raw(k)...)
	out = append(out, mid...)
	out = append(out, g.raw(n-k)...)
	return append(out, suf...)
}

func (g *G) raw(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.Intn(256))
	}
	return b
}

func (g *G) durVal(r *Rules) (int64, int64) {
	ps := r.allParams()
	switch n := g.Intn(12); {
	case n < 7 && len(ps) > 0:
		d := pick(g, ps).D
		s, ns := d[0], d[1]
		// step by one nanosecond, keeping the signs right
		t := s*1e9 + ns
		t += int64(g.Intn(3)) - 1
		return t / 1e9, t % 1e9
	case n == 7:
		return pick(g, [][2]int64{{maxDurSec, 0}, {-maxDurSec, 0}, {maxDurSec + 1, 0}, {-maxDurSec - 1, 0}, {math.MaxInt64, 0}, {math.MinInt64, 0}})[0], 0
	case n == 8:
		p := pick(g, [][2]int64{{1, -1}, {-1, 1}, {0, 1e9}, {0, -1e9}, {5, 1e9}, {-3, 500}, {0, math.MaxInt32}, {7, math.MinInt32}})
		return p[0], p[1]
	}
	v := g.durParam()
	return v.D[0], v.D[1]
}

func (g *G) tsVal(md *Model, r *Rules) (int64, int64) {
	ps := r.allParams()
	for {
		var s, ns int64
		now := md.Now.Unix()
		switch n := g.Intn(12); {
		case r.LtNow != nil || r.GtNow != nil || r.Within != nil:
			off := int64(g.Intn(1e5))
			if r.Within != nil && g.P(70) {
				off = r.Within.D[0] + int64(g.Intn(1e4)) - 5000
			}
			if g.P(20) {
				off = g.Int63n(4e9)
			}
			if g.P(50) {
				off = -off
			}
			s = now + off
			ns = int64(g.Intn(1e9))
			if g.P(15) {
				s = pick(g, []int64{minTsSec, maxTsSec, minTsSec - 1, maxTsSec + 1, math.MaxInt64, math.MinInt64, 0, now - 9300000000, now + 9300000000})
			}
		case n < 7 && len(ps) > 0:
			d := pick(g, ps).D
			s, ns = d[0], d[1]+int64(g.Intn(3))-1
			if ns < 0 {
				s, ns = s-1, ns+1e9
			} else if ns >= 1e9 {
				s, ns = s+1, ns-1e9
			}
		case n == 7:
			p := pick(g, [][2]int64{{minTsSec, 0}, {minTsSec - 1, 0}, {maxTsSec, 999999999}, {maxTsSec + 1, 0}, {math.MaxInt64, 0}, {math.MinInt64, 0}})
			s, ns = p[0], p[1]
		case n == 8:
			p := pick(g, [][2]int64{{1, -1}, {0, 1e9}, {-4, 1e9}, {0, math.MinInt32}, {5, -5}})
			s, ns = p[0], p[1]
		default:
			v := g.tsParam()
			s, ns = v.D[0], v.D[1]
		}
		if !NearNow(r, s, ns, md.Now, 600) {
			return s, ns
		}
	}
}

// Nil is an element of a top-level map or list of messages that is to be
// replaced by a nil pointer.
type Nil struct {
	Field string
	Key   interface{} // map key
	Idx   int
}

// Fill sets the fields of m, at random.
func (g *G) Fill(md *Model, msg *Msg, m protoreflect.Message, depth int, validPct int) {
	for i, o := range msg.Oneofs {
		_ = o
		var fs []*Field
		for _, f := range msg.Fields {
			if f.Oneof == i+1 {
				fs = append(fs, f)
			}
		}
		if len(fs) > 0 && g.P(80) {
			g.fillField(md, pick(g, fs), m, depth, validPct)
		}
	}
	for _, f := range msg.Fields {
		if f.Oneof == 0 {
			g.fillField(md, f, m, depth, validPct)
		}
	}
}

// good draws values until the rules hold, most of the time.
func (g *G) good(md *Model, f *Field, r *Rules, validPct int) protoreflect.Value {
	v := g.scalarVal(md, f, r)
	if r == nil || !g.P(validPct) {
		return v
	}
	for i := 0; i < 12 && len(md.scalar(f, r, v)) > 0; i++ {
		v = g.scalarVal(md, f, r)
	}
	return v
}

func (g *G) fillField(md *Model, f *Field, m protoreflect.Message, depth, validPct int) {
	fd := m.Descriptor().Fields().ByName(protoreflect.Name(f.Name))
	r := f.Rules
	if r == nil {
		r = &Rules{}
	}
	switch f.Card {
	case "repeated":
		n := g.size(r)
		if n == 0 {
			return
		}
		l := m.Mutable(fd).List()
		for i := 0; i < n; i++ {
			if f.Kind == "message" {
				e := l.NewElement()
				g.fillMsg(md, f, r.Items, e.Message(), depth, validPct)
				l.Append(e)
				continue
			}
			v := g.good(md, f, r.Items, validPct)
			if l.Len() > 0 && g.P(15) {
				v = l.Get(g.Intn(l.Len())) // a repeated element
				if f.Kind == "bytes" {
					v = protoreflect.ValueOfBytes(append([]byte(nil), v.Bytes()...))
				}
			}
			l.Append(v)
		}
	case "map":
		n := g.size(r)
		if n == 0 {
			return
		}
		mp := m.Mutable(fd).Map()
		for i := 0; i < n*2 && mp.Len() < n; i++ {
			k := g.good(md, &Field{Kind: f.KeyKind}, r.Keys, validPct).MapKey()
			if f.Kind == "message" {
				e := mp.NewValue()
				g.fillMsg(md, f, r.Values, e.Message(), depth, validPct)
				mp.Set(k, e)
				continue
			}
			mp.Set(k, g.good(md, f, r.Values, validPct))
		}
	default:
		if f.Kind == "message" {
			if f.Oneof == 0 && g.P(25) {
				return
			}
			sub := m.NewField(fd)
			g.fillMsg(md, f, r, sub.Message(), depth, validPct)
			m.Set(fd, sub)
			return
		}
		if f.Oneof == 0 && f.Rules == nil && g.P(40) {
			return
		}
		v := g.good(md, f, f.Rules, validPct)
		if f.Card == "" && f.Oneof == 0 && fd.HasPresence() && g.P(25) {
			return // proto2, left unset
		}
		m.Set(fd, v)
	}
}

func (g *G) size(r *Rules) int {
	n := g.Intn(4)
	for _, p := range []*uint64{r.Min, r.Max} {
		if p != nil && *p < 12 && g.P(50) {
			n = int(*p) + g.Intn(3) - 1
		}
	}
	if n < 0 {
		n = 0
	}
	return n
}

func (g *G) fillMsg(md *Model, f *Field, r *Rules, m protoreflect.Message, depth, validPct int) {
	if r == nil {
		r = &Rules{}
	}
	fs := m.Descriptor().Fields()
	set := func(n string, v protoreflect.Value) { m.Set(fs.ByName(protoreflect.Name(n)), v) }
	switch f.TypeName {
	case "google.protobuf.Duration":
		s, n := g.durVal(r)
		for i := 0; i < 8 && g.P(validPct) && len(md.duration(r, s, n)) > 0; i++ {
			s, n = g.durVal(r)
		}
		set("seconds", protoreflect.ValueOfInt64(s))
		set("nanos", protoreflect.ValueOfInt32(int32(n)))
		return
	case "google.protobuf.Timestamp":
		s, n := g.tsVal(md, r)
		for i := 0; i < 8 && g.P(validPct) && len(md.timestamp(r, s, n)) > 0; i++ {
			s, n = g.tsVal(md, r)
		}
		set("seconds", protoreflect.ValueOfInt64(s))
		set("nanos", protoreflect.ValueOfInt32(int32(n)))
		return
	case "google.protobuf.Any":
		u := ""
		if ps := r.allParams(); len(ps) > 0 && g.P(75) {
			u = string(pick(g, ps).S)
			if g.P(15) {
				u = g.mutStr(u)
			}
		} else if g.P(70) {
			u = pick(g, anyURLs)
		}
		set("type_url", protoreflect.ValueOfString(u))
		set("value", protoreflect.ValueOfBytes(g.bytes(4)))
		return
	}
	if k := wrappedKind(f.TypeName); k != "" {
		var rr *Rules
		if r.Type != "" {
			rr = r
		}
		set("value", g.good(md, &Field{Kind: k}, rr, validPct))
		return
	}
	sub := md.Reg.Msgs[f.TypeName]
	if sub == nil || depth <= 0 {
		return
	}
	if g.P(10) {
		return // left empty
	}
	g.Fill(md, sub, m, depth-1, validPct)
}

var anyURLs = []string{"type.googleapis.com/google.protobuf.Duration", "type.googleapis.com/google.protobuf.Timestamp", "type.googleapis.com/a.B", "x/y", "", "type.googleapis.com/google.protobuf.duration"}

// ShiftNow moves the values under clock-relative rules by d seconds.
func ShiftNow(reg *Reg, msg *Msg, m protoreflect.Message, d int64) {
	if msg == nil || !m.IsValid() {
		return
	}
	shift := func(f *Field, r *Rules, v protoreflect.Message) {
		if f.TypeName == "google.protobuf.Timestamp" {
			if r != nil && (r.LtNow != nil || r.GtNow != nil || r.Within != nil) {
				fd := v.Descriptor().Fields().ByName("seconds")
				v.Set(fd, protoreflect.ValueOfInt64(v.Get(fd).Int()+d))
			}
			return
		}
		ShiftNow(reg, reg.Msgs[f.TypeName], v, d)
	}
	for _, f := range msg.Fields {
		if f.Kind != "message" {
			continue
		}
		fd := m.Descriptor().Fields().ByName(protoreflect.Name(f.Name))
		if !m.Has(fd) {
			continue
		}
		r := f.Rules
		switch f.Card {
		case "repeated":
			if r != nil {
				r = r.Items
			}
			for i, l := 0, m.Mutable(fd).List(); i < l.Len(); i++ {
				shift(f, r, l.Get(i).Message())
			}
		case "map":
			if r != nil {
				r = r.Values
			}
			m.Mutable(fd).Map().Range(func(_ protoreflect.MapKey, v protoreflect.Value) bool {
				shift(f, r, v.Message())
				return true
			})
		default:
			shift(f, r, m.Mutable(fd).Message())
		}
	}
}

var _ = time.Now
