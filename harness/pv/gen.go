package pv

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
)

// G draws every random choice of a run from one seeded source.
type G struct {
	*rand.Rand
	// Restrict generators to what the other back ends are meant to
	// implement.
	CC   bool
	Java bool
	Py   bool
}

func NewG(seed int64) *G { return &G{Rand: rand.New(rand.NewSource(seed))} }

func (g *G) P(pct int) bool { return g.Intn(100) < pct }

func pick[T any](g *G, l []T) T { return l[g.Intn(len(l))] }

// ---- numbers -----------------------------------------------------------

func intRange(kind string) (int64, int64) {
	switch kind {
	case "int32", "sint32", "sfixed32", "enum":
		return math.MinInt32, math.MaxInt32
	}
	return math.MinInt64, math.MaxInt64
}

func uintMax(kind string) uint64 {
	switch kind {
	case "uint32", "fixed32":
		return math.MaxUint32
	}
	return math.MaxUint64
}

// numParam draws a rule parameter.
func (g *G) numParam(kind string) Val {
	switch kindClass(kind) {
	case "int":
		lo, hi := intRange(kind)
		switch g.Intn(10) {
		case 0:
			return IVal(pick(g, []int64{lo, lo + 1, hi, hi - 1}))
		case 1:
			return IVal(int64(g.Uint64()) % (hi/2 + 1))
		case 2, 3, 4:
			return IVal(int64(g.Intn(7)) - 3)
		}
		return IVal(int64(g.Intn(400)) - 200)
	case "uint":
		hi := uintMax(kind)
		switch g.Intn(10) {
		case 0:
			return UVal(pick(g, []uint64{hi, hi - 1, hi/2 + 1}))
		case 1:
			return UVal(g.Uint64() & hi)
		case 2, 3, 4:
			return UVal(uint64(g.Intn(4)))
		}
		return UVal(uint64(g.Intn(300)))
	case "float":
		var f float64
		switch g.Intn(10) {
		case 0:
			f = pick(g, []float64{0, 1, -1, 1e-7, 1e-30, 3.5e10, 1e21, -1e21, 123456789, 0.1, 0.2, 0.3, math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32})
		case 1:
			f = math.Float64frombits(g.Uint64())
			if math.IsNaN(f) || math.IsInf(f, 0) || kind == "float" {
				f = float64(math.Float32frombits(g.Uint32()))
			}
		case 2, 3:
			f = float64(g.Intn(9) - 4)
		case 4, 5, 6:
			f = float64(g.Intn(2000)-1000) / 10
		default:
			f = g.NormFloat64() * 100
		}
		if math.IsNaN(f) || math.IsInf(f, 0) {
			f = 7.25
		}
		if kind == "float" {
			f = float64(float32(f))
			if math.IsInf(f, 0) {
				f = 0.25
			}
		}
		return FVal(f)
	}
	panic("numParam " + kind)
}

func sameVal(kind string, a, b Val) bool {
	switch kindClass(kind) {
	case "int":
		return a.I == b.I
	case "uint":
		return a.U == b.U
	case "float":
		return a.Float() == b.Float()
	case "str":
		return string(a.S) == string(b.S)
	}
	return a.D == b.D
}

func lessVal(kind string, a, b Val) bool {
	switch kindClass(kind) {
	case "int":
		return a.I < b.I
	case "uint":
		return a.U < b.U
	case "float":
		return a.Float() < b.Float()
	}
	return durCmp(a.D, b.D) < 0
}

// NumShapes are all the shapes of consistent number rules.
var NumShapes = []string{"const", "lt", "lte", "gt", "gte",
	"gt<lt", "gte<lt", "gt<lte", "gte<lte", "gt>lt", "gte>lt", "gt>lte", "gte>lte",
	"in", "not_in", "not_in+gt<lte", "not_in+gte>lt", "none"}

// numRules builds number rules of one shape; param draws the parameters.
func (g *G) numRules(kind, shape string, param func() Val) *Rules {
	r := &Rules{Type: kind}
	var list []Val
	fill := func(n int) {
		for len(list) < n {
			v := param()
			dup := false
			for _, w := range list {
				dup = dup || sameVal(kind, v, w)
			}
			if !dup {
				list = append(list, v)
			} else if n = n - 1; n == 0 {
				n = 1
			}
		}
	}
	if i := strings.Index(shape, "not_in+"); i == 0 {
		fill(1 + g.Intn(4))
		r.NotIn = list
		shape = shape[len("not_in+"):]
	}
	two := func(inside bool) (Val, Val) { // lower-rule, upper-rule parameters
		a, b := param(), param()
		for n := 0; sameVal(kind, a, b); n++ {
			b = param()
			if n > 100 {
				panic("cannot draw two different parameters for " + kind)
			}
		}
		if lessVal(kind, a, b) != inside {
			a, b = b, a
		}
		return a, b
	}
	one := func() *Val { v := param(); return &v }
	switch shape {
	case "none":
	case "const":
		r.Const = one()
	case "lt":
		r.Lt = one()
	case "lte":
		r.Lte = one()
	case "gt":
		r.Gt = one()
	case "gte":
		r.Gte = one()
	case "in":
		fill(1 + g.Intn(4))
		r.In = list
	case "not_in":
		fill(1 + g.Intn(4))
		r.NotIn = list
	default:
		lo, hi := two(strings.Contains(shape, "<"))
		if strings.HasPrefix(shape, "gte") {
			r.Gte = &lo
		} else {
			r.Gt = &lo
		}
		if strings.HasSuffix(shape, "lte") {
			r.Lte = &hi
		} else {
			r.Lt = &hi
		}
	}
	return r
}

func (g *G) NumRules(kind, shape string, ignoreEmpty int) *Rules {
	r := g.numRules(kind, shape, func() Val { return g.numParam(kind) })
	switch ignoreEmpty {
	case 1:
		r.IgnoreEmpty = T()
	case 2:
		r.IgnoreEmpty = Fa()
	}
	return r
}

// ---- strings -----------------------------------------------------------

var runePool = []rune("aaabbbccdexyzABZ0189 -_./:@\t\n\"\\'%$#?é£ßжλ日本€😀𝔸\u0301\u00a0")
var asciiPool = []rune("aaabbbccddexyzABZ0189 -_./:@%#?~")

func (g *G) str(max int) string {
	n := g.Intn(max + 1)
	pool := runePool
	if g.P(40) {
		pool = asciiPool
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(pick(g, pool))
	}
	return b.String()
}

func (g *G) str1(max int) string {
	for {
		if s := g.str(max); s != "" {
			return s
		}
	}
}

var patterns = []string{
	"^a+$", "^[a-c]*$", "(?i)^foo.*$", "^\\d{2,3}$", "^[^\\x00-\\x1f]+$", "^(foo|ba[rz])+$",
	"^\\p{L}+$", "^.{3}$", "^a\\.b$", "^\\\"x\\\"$", "^\\s?\\w+\\s?$", "^(a|b)?c$", "^\\\\$", "^é+$",
}

// patterns that match somewhere in the string: only where search is the
// documented meaning (Go)
var loosePatterns = []string{"b", "[0-9]+", "a.c", "x{2}", "\\.", "^a", "z$", "\\bfoo\\b", "é|日"}

var StrShapes = []string{"const", "in", "not_in", "len", "min_len", "max_len", "min<max_len", "min=max_len",
	"len_bytes", "min_bytes", "max_bytes", "min<max_bytes", "min=max_bytes",
	"prefix", "suffix", "contains", "not_contains", "mix", "mix", "mix", "none"}

func (g *G) strList(str func() string) []Val {
	n := 1 + g.Intn(4)
	seen := map[string]bool{}
	var out []Val
	for i := 0; i < n*3 && len(out) < n; i++ {
		s := str()
		if !seen[s] {
			seen[s] = true
			out = append(out, SVal(s))
		}
	}
	return out
}

// StrRules builds the length, affix and list rules of strings.
func (g *G) StrRules(shape string, ignoreEmpty int) *Rules {
	r := &Rules{Type: "string"}
	s1 := func(n int) *Val { v := SVal(g.str1(n)); return &v }
	sz := func() *uint64 { return P64(uint64(g.Intn(9))) }
	mm := func(eq bool) (*uint64, *uint64) {
		a := uint64(g.Intn(6))
		if eq {
			return P64(a), P64(a)
		}
		return P64(a), P64(a + 1 + uint64(g.Intn(5)))
	}
	switch shape {
	case "none":
	case "const":
		v := SVal(g.str(6))
		r.Const = &v
	case "in":
		r.In = g.strList(func() string { return g.str(5) })
	case "not_in":
		r.NotIn = g.strList(func() string { return g.str(5) })
	case "len":
		r.Len = sz()
	case "min_len":
		r.MinLen = sz()
	case "max_len":
		r.MaxLen = sz()
	case "min<max_len":
		r.MinLen, r.MaxLen = mm(false)
	case "min=max_len":
		r.MinLen, r.MaxLen = mm(true)
	case "len_bytes":
		r.LenBytes = sz()
	case "min_bytes":
		r.MinBytes = sz()
	case "max_bytes":
		r.MaxBytes = sz()
	case "min<max_bytes":
		r.MinBytes, r.MaxBytes = mm(false)
	case "min=max_bytes":
		r.MinBytes, r.MaxBytes = mm(true)
	case "prefix":
		r.Prefix = s1(3)
	case "suffix":
		r.Suffix = s1(3)
	case "contains":
		r.Contains = s1(3)
	case "not_contains":
		r.NotContains = s1(2)
	case "mix":
		// several rules that some string can satisfy
		affix := func() *Val { return s1(2) }
		if g.P(50) {
			r.Prefix = affix()
		}
		if g.P(50) {
			r.Suffix = affix()
		}
		if g.P(40) {
			r.Contains = affix()
		}
		if g.P(40) {
			r.NotContains = s1(2)
		}
		if g.P(30) {
			r.NotIn = g.strList(func() string { return g.str(4) })
		}
		need := 0
		for _, v := range []*Val{r.Prefix, r.Suffix, r.Contains} {
			if v != nil {
				need += len(v.S)
			}
		}
		switch g.Intn(5) {
		case 0:
			r.Len = P64(uint64(g.Intn(6) + 2))
		case 1:
			r.MinLen = P64(uint64(g.Intn(5)))
		case 2:
			a := uint64(g.Intn(4))
			r.MinLen, r.MaxLen = P64(a), P64(a+uint64(need)+uint64(g.Intn(4)))
		}
		switch g.Intn(5) {
		case 0:
			r.LenBytes = P64(uint64(g.Intn(9) + 3))
		case 1:
			r.MinBytes = P64(uint64(g.Intn(9)))
		case 2:
			a := uint64(g.Intn(5))
			b := a + uint64(need) + uint64(g.Intn(9)) + 1
			if r.MaxLen != nil && b < *r.MaxLen {
				b = *r.MaxLen + uint64(g.Intn(3))
			}
			r.MinBytes, r.MaxBytes = P64(a), P64(b)
		}
	default:
		panic("string shape " + shape)
	}
	g.ie(r, ignoreEmpty)
	return r
}

func (g *G) ie(r *Rules, n int) {
	switch n {
	case 1:
		r.IgnoreEmpty = T()
	case 2:
		r.IgnoreEmpty = Fa()
	}
}

var FormatShapes = []string{"email", "hostname", "ip", "ipv4", "ipv6", "uri", "uri_ref", "address", "uuid",
	"HTTP_HEADER_NAME", "HTTP_HEADER_VALUE", "HTTP_HEADER_NAME/strict", "HTTP_HEADER_VALUE/strict",
	"HTTP_HEADER_NAME/loose", "HTTP_HEADER_VALUE/loose", "pattern", "pattern", "pattern+len", "email+len", "hostname+suffix", "false"}

// FormatRules builds the well known format and pattern rules of strings.
func (g *G) FormatRules(shape string, ignoreEmpty int) *Rules {
	r := &Rules{Type: "string"}
	pat := func() *Val {
		p := pick(g, patterns)
		for g.Py && strings.Contains(p, "\\p") { // Python has no such classes
			p = pick(g, patterns)
		}
		if !g.CC && !g.Java && g.P(40) {
			p = pick(g, loosePatterns)
		}
		v := SVal(p)
		return &v
	}
	base, rest, _ := strings.Cut(shape, "+")
	switch {
	case strings.HasPrefix(shape, "HTTP"):
		rx, mode, _ := strings.Cut(shape, "/")
		r.WKRegex = rx
		if mode == "strict" {
			r.Strict = T()
		}
		if mode == "loose" {
			r.Strict = Fa()
		}
	case shape == "false":
		// a boolean rule set to false is no rule
		r.MinLen = P64(uint64(g.Intn(3)))
	case base == "pattern":
		r.Pattern = pat()
	default:
		r.WellKnown = base
	}
	switch rest {
	case "len":
		r.MaxLen = P64(uint64(8 + g.Intn(10)))
	case "suffix":
		v := SVal(pick(g, []string{".com", ".a", "z"}))
		r.Suffix = &v
	}
	g.ie(r, ignoreEmpty)
	return r
}

// ---- bytes -------------------------------------------------------------

func (g *G) bytes(max int) []byte {
	n := g.Intn(max + 1)
	b := make([]byte, n)
	for i := range b {
		switch g.Intn(4) {
		case 0:
			b[i] = pick(g, []byte{0, 1, 9, 10, 0x0f, 0x10, 0x22, 0x5c, 0x7f, 0x80, 0xff})
		case 1:
			b[i] = byte(g.Intn(256))
		default:
			b[i] = pick(g, []byte("aabbcxyz019"))
		}
	}
	return b
}

var BytesShapes = []string{"const", "in", "not_in", "len", "min_len", "max_len", "min<max", "min=max",
	"prefix", "suffix", "contains", "pattern", "ip", "ipv4", "ipv6", "mix", "mix", "none"}

func (g *G) BytesRules(shape string, ignoreEmpty int) *Rules {
	r := &Rules{Type: "bytes"}
	b1 := func(n int) *Val {
		for {
			if b := g.bytes(n); len(b) > 0 {
				return &Val{S: b}
			}
		}
	}
	list := func() []Val {
		return g.strList(func() string { return string(g.bytes(5)) })
	}
	switch shape {
	case "none":
	case "const":
		r.Const = b1(5)
		if g.P(10) {
			r.Const = &Val{S: []byte{}}
		}
	case "in":
		r.In = list()
	case "not_in":
		r.NotIn = list()
	case "len":
		r.Len = P64(uint64(g.Intn(7)))
	case "min_len":
		r.MinLen = P64(uint64(g.Intn(7)))
	case "max_len":
		r.MaxLen = P64(uint64(g.Intn(7)))
	case "min<max":
		a := uint64(g.Intn(5))
		r.MinLen, r.MaxLen = P64(a), P64(a+1+uint64(g.Intn(5)))
	case "min=max":
		a := uint64(g.Intn(6))
		r.MinLen, r.MaxLen = P64(a), P64(a)
	case "prefix":
		r.Prefix = b1(3)
	case "suffix":
		r.Suffix = b1(3)
	case "contains":
		r.Contains = b1(3)
	case "pattern":
		v := SVal(pick(g, []string{"^[a-c]*$", "^a+$", "^[\\x00-\\x7f]+$", "^\\d{2,3}$", "^x.z$"}))
		r.Pattern = &v
	case "ip", "ipv4", "ipv6":
		r.WellKnown = shape
	case "mix":
		need := 0
		if g.P(50) {
			r.Prefix = b1(2)
			need += len(r.Prefix.S)
		}
		if g.P(50) {
			r.Suffix = b1(2)
			need += len(r.Suffix.S)
		}
		if g.P(40) {
			r.Contains = b1(2)
			need += len(r.Contains.S)
		}
		if g.P(30) {
			r.NotIn = list()
		}
		switch g.Intn(4) {
		case 0:
			a := uint64(g.Intn(4))
			r.MinLen, r.MaxLen = P64(a), P64(a+uint64(need)+uint64(g.Intn(4)))
		case 1:
			r.Len = P64(uint64(need + g.Intn(4)))
		}
	default:
		panic("bytes shape " + shape)
	}
	g.ie(r, ignoreEmpty)
	return r
}

// ---- enums -------------------------------------------------------------

func (g *G) Enum(name string) *Enum {
	e := &Enum{Name: name}
	used := map[int32]bool{0: true}
	pre := strings.ToUpper(name)
	e.Vals = append(e.Vals, EnumVal{pre + "_ZERO", 0})
	n := 1 + g.Intn(5)
	for i := 0; i < n; i++ {
		var v int32
		switch g.Intn(5) {
		case 0:
			v = int32(g.Uint32())
		case 1:
			v = -int32(g.Intn(5)) - 1
		default:
			v = int32(g.Intn(8))
		}
		if used[v] {
			continue
		}
		used[v] = true
		e.Vals = append(e.Vals, EnumVal{fmt.Sprintf("%s_V%d", pre, i), v})
	}
	if g.P(25) {
		e.Alias = true
		e.Vals = append(e.Vals, EnumVal{pre + "_ALIAS", pick(g, e.Vals).Num})
	}
	return e
}

var EnumShapes = []string{"const", "defined_only", "in", "not_in", "defined_only+in", "defined_only+not_in", "const+defined_only", "none"}

func (g *G) EnumRules(e *Enum, shape string) *Rules {
	r := &Rules{Type: "enum"}
	defined := func() Val { return IVal(int64(pick(g, e.Vals).Num)) }
	any := func() Val {
		if g.P(60) || g.Java { // Java has no constants for the others
			return defined()
		}
		return IVal(int64(g.Intn(12)) - 2)
	}
	list := func(f func() Val) []Val {
		var out []Val
		n := 1 + g.Intn(3)
		for i := 0; i < 3*n && len(out) < n; i++ {
			v := f()
			dup := false
			for _, w := range out {
				dup = dup || w.I == v.I
			}
			if !dup {
				out = append(out, v)
			}
		}
		return out
	}
	for _, s := range strings.Split(shape, "+") {
		switch s {
		case "none":
		case "const":
			v := any()
			r.Const = &v
		case "defined_only":
			r.DefinedOnly = T()
		case "in":
			f := any
			if strings.Contains(shape, "defined_only") {
				f = defined
			}
			r.In = list(f)
		case "not_in":
			r.NotIn = list(any)
		}
	}
	if r.DefinedOnly == nil && g.P(10) {
		r.DefinedOnly = Fa()
	}
	return r
}

// ---- time --------------------------------------------------------------

func (g *G) durParam() Val {
	switch g.Intn(8) {
	case 0:
		return DVal(0, 0)
	case 1:
		return DVal(0, int64(g.Intn(1e9)))
	case 2:
		return DVal(0, -int64(g.Intn(1e9)))
	case 3:
		return DVal(-int64(g.Intn(1e6))-1, -int64(g.Intn(1e9)))
	case 4:
		s := int64(g.Intn(2e9)) + 7e9 // near the 292 years of a 64 bit nanosecond count
		return DVal(s, int64(g.Intn(1e9)))
	case 5:
		return DVal(int64(g.Intn(5)), 0)
	}
	return DVal(int64(g.Intn(100)), int64(pick(g, []int{0, 1, 5e8, 999999999})))
}

func (g *G) tsParam() Val {
	n := int64(pick(g, []int{0, 0, 1, 5e8, 999999999}))
	switch g.Intn(6) {
	case 0:
		return DVal(0, n)
	case 1:
		return DVal(minTsSec, n)
	case 2:
		return DVal(maxTsSec, n)
	case 3:
		return DVal(minTsSec+g.Int63n(maxTsSec-minTsSec), int64(g.Intn(1e9)))
	}
	return DVal(int64(g.Intn(200)-100), n)
}

func (g *G) DurRules(shape string) *Rules {
	r := g.numRules("duration", shape, g.durParam)
	if g.P(25) {
		r.Required = T()
	}
	return r
}

var TsShapes = []string{"const", "lt", "lte", "gt", "gte",
	"gt<lt", "gte<lt", "gt<lte", "gte<lte", "gt>lt", "gte>lt", "gt>lte", "gte>lte", "none",
	"lt_now", "gt_now", "within", "lt_now+within", "gt_now+within"}

func (g *G) TsRules(shape string) *Rules {
	var r *Rules
	if strings.Contains(shape, "now") || shape == "within" {
		r = &Rules{Type: "timestamp"}
		for _, s := range strings.Split(shape, "+") {
			switch s {
			case "lt_now":
				r.LtNow = T()
			case "gt_now":
				r.GtNow = T()
			case "within":
				v := DVal(int64(7200+g.Intn(1e7)), int64(g.Intn(2))*int64(g.Intn(1e9)))
				r.Within = &v
			}
		}
		// false says nothing
		if r.GtNow == nil && g.P(15) {
			r.LtNow = pick(g, []*bool{r.LtNow, Fa()})
		} else if r.LtNow == nil && g.P(15) {
			r.GtNow = pick(g, []*bool{r.GtNow, Fa()})
		}
	} else {
		// bounds more than 292 years apart are fine for the reference
		r = g.numRules("timestamp", shape, g.tsParam)
	}
	if g.P(25) {
		r.Required = T()
	}
	return r
}
