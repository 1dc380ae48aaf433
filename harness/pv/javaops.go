package pv

import (
	"encoding/hex"
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"
)

// JCase is one call of the Java validation library.
type JCase struct {
	Op, Type string
	Args     []string
}

func (c JCase) Line() string { return c.Op + "\t" + c.Type + "\t" + strings.Join(c.Args, "\t") }

func (c JCase) String() string {
	var l []string
	for _, a := range c.Args {
		switch c.Type {
		case "str", "byt":
			if strings.HasPrefix(a, "x") && !strings.Contains(a, ",") {
				l = append(l, strconv.Quote(jtext(a)))
				continue
			}
		case "f32":
			if n, err := strconv.ParseUint(a, 10, 32); err == nil {
				l = append(l, fmt.Sprint(math.Float32frombits(uint32(n))))
				continue
			}
		case "f64":
			if n, err := strconv.ParseUint(a, 10, 64); err == nil {
				l = append(l, fmt.Sprint(math.Float64frombits(n)))
				continue
			}
		}
		l = append(l, a)
	}
	return fmt.Sprintf("%s<%s>(%s)", c.Op, c.Type, strings.Join(l, " "))
}

func jstr(s string) string { return "x" + hex.EncodeToString([]byte(s)) }

func jtext(a string) string {
	b, err := hex.DecodeString(a[1:])
	if err != nil {
		panic(err)
	}
	return string(b)
}

var jkinds = map[string]string{"i32": "int32", "i64": "int64", "u32": "uint32", "u64": "uint64", "f32": "float", "f64": "double", "bool": "bool", "str": "string", "byt": "bytes", "dur": "duration", "ts": "timestamp"}

// val encodes a value of the type.
func jenc(t string, v Val) string {
	switch t {
	case "i32", "i64":
		return fmt.Sprint(v.I)
	case "u32", "u64":
		return fmt.Sprint(v.U)
	case "f32":
		return fmt.Sprint(math.Float32bits(float32(v.Float())))
	case "f64":
		return fmt.Sprint(math.Float64bits(v.Float()))
	case "bool":
		if v.B {
			return "1"
		}
		return "0"
	case "str", "byt":
		return jstr(string(v.S))
	case "dur", "ts":
		return fmt.Sprintf("%d:%d", v.D[0], v.D[1])
	}
	panic(t)
}

func (g *G) jparam(t string) Val {
	switch t {
	case "bool":
		return Val{B: g.P(50)}
	case "str":
		return SVal(g.str(pick(g, []int{2, 4, 10})))
	case "byt":
		return SVal(string(g.raw(g.Intn(4))))
	case "dur":
		return g.durParam()
	case "ts":
		return g.tsParam()
	}
	for {
		v := g.numParam(jkinds[t])
		if f := v.Float(); t[0] != 'f' || f != 0 || !math.Signbit(f) {
			if t == "f32" {
				if f32 := float32(f); f32 == 0 && math.Signbit(float64(f32)) || math.IsInf(float64(f32), 0) {
					continue
				}
				v = FVal(float64(float32(f)))
			}
			return v
		}
	}
}

// jval draws a value near the parameters.
func (g *G) jval(t string, ps ...Val) Val {
	switch t {
	case "i32", "i64":
		return IVal(g.intVal(jkinds[t], ps))
	case "u32", "u64":
		return UVal(g.uintVal(jkinds[t], ps))
	case "f32", "f64":
		for {
			f := g.floatVal(jkinds[t], ps, false)
			if t == "f32" {
				f = float64(float32(f))
			}
			if !math.IsNaN(f) && (f != 0 || !math.Signbit(f)) {
				return FVal(f)
			}
		}
	case "dur":
		return g.near(ps, g.durParam, func(s, n int64) bool { return durValid(s, n) })
	case "ts":
		return g.near(ps, g.tsParam, func(s, n int64) bool { return tsValid(s, n) })
	}
	if len(ps) > 0 && g.P(60) {
		p := pick(g, ps)
		if t == "str" && g.P(40) {
			return SVal(g.mutStr(string(p.S)))
		}
		return p
	}
	return g.jparam(t)
}

func (g *G) near(ps []Val, param func() Val, valid func(s, n int64) bool) Val {
	for {
		v := param()
		if len(ps) > 0 && g.P(75) {
			v = pick(g, ps)
			v.D[0] += int64(g.Intn(3)) - 1
			if g.P(60) {
				v.D[1] += int64(g.Intn(3)) - 1
			}
		}
		if valid(v.D[0], v.D[1]) {
			return v
		}
	}
}

// compare orders two values of the type.
func jcmp(t string, a, b Val) int {
	lt := func(x, y bool) int {
		switch {
		case x:
			return -1
		case y:
			return 1
		}
		return 0
	}
	switch t {
	case "i32", "i64":
		return lt(a.I < b.I, a.I > b.I)
	case "u32", "u64":
		return lt(a.U < b.U, a.U > b.U)
	case "f32", "f64":
		return lt(a.Float() < b.Float(), a.Float() > b.Float())
	case "dur", "ts":
		return durCmp(a.D, b.D)
	case "bool":
		return lt(!a.B && b.B, a.B && !b.B)
	}
	return strings.Compare(string(a.S), string(b.S))
}

var (
	jnum = []string{"i32", "i64", "u32", "u64", "f32", "f64", "dur", "ts"}
	jeq  = []string{"i32", "i64", "u32", "u64", "f32", "f64", "str", "byt", "bool", "dur", "ts"}
	jops = []string{"lt", "lte", "gt", "gte", "range", "range", "range", "range", "between", "outside", "in", "notIn", "const", "within", "within", "minItems", "maxItems", "unique", "unique", "forEach", "parts", "min", "max",
		"length", "minLength", "maxLength", "lenBytes", "minBytes", "maxBytes", "pattern", "prefix", "suffix", "contains", "notContains",
		"email", "address", "hostname", "ip", "ipv4", "ipv6", "uri", "uri_ref", "uuid", "uuid",
		"b.length", "b.minLength", "b.maxLength", "b.pattern", "b.prefix", "b.suffix", "b.contains", "b.ip", "b.ipv4", "b.ipv6", "definedOnly", "required", "index", "index", "threads"}
	jpats = []string{"^a+$", "^[a-c]*$", `^\d{2,3}$`, "^(foo|ba[rz])+$", `^a\.b$`, "^(a|b)?c$", "^[é日]+$", `^\\$`, "[a-z]+", "", "a|ab"}
)

// JavaCase draws a call and tells what it has to answer: "T" it accepts, "F"
// it throws a ValidationException, or the answers of a script; "?" if that is
// not specified.
func (g *G) JavaCase() (JCase, string) {
	op := pick(g, jops)
	if (op == "index" || op == "threads") && g.P(op2pct(op)) {
		op = "range"
	}
	bit := func(v bool) string {
		if v {
			return "T"
		}
		return "F"
	}
	b01 := func(v bool) string {
		if v {
			return "1"
		}
		return "0"
	}
	switch op {
	case "lt", "lte", "gt", "gte":
		t := pick(g, jnum)
		p := g.jparam(t)
		v := g.jval(t, p)
		c := jcmp(t, v, p)
		ok := op == "lt" && c < 0 || op == "lte" && c <= 0 || op == "gt" && c > 0 || op == "gte" && c >= 0
		return JCase{op, t, []string{jenc(t, v), jenc(t, p)}}, bit(ok)
	case "range", "between", "outside":
		t := pick(g, jnum)
		lo, hi := g.jparam(t), g.jparam(t)
		if g.P(25) {
			hi = g.jval(t, lo)
		}
		for op == "range" && jcmp(t, lo, hi) == 0 {
			hi = g.jparam(t)
		}
		loInc, hiInc := g.P(50), g.P(50)
		v := g.jval(t, lo, hi)
		cl, ch := jcmp(t, v, lo), jcmp(t, v, hi)
		above := cl > 0 || loInc && cl == 0
		below := ch < 0 || hiInc && ch == 0
		if op != "range" {
			return JCase{op, t, []string{jenc(t, v), jenc(t, lo), b01(loInc), jenc(t, hi), b01(hiInc)}}, bit((above && below) == (op == "between"))
		}
		a := []string{jenc(t, v), "-", "-", "-", "-"} // lt lte gt gte
		if hiInc {
			a[2] = jenc(t, hi)
		} else {
			a[1] = jenc(t, hi)
		}
		if loInc {
			a[4] = jenc(t, lo)
		} else {
			a[3] = jenc(t, lo)
		}
		if jcmp(t, lo, hi) < 0 {
			return JCase{op, t, a}, bit(above && below)
		}
		return JCase{op, t, a}, bit(above || below)
	case "in", "notIn", "const":
		t := pick(g, jeq)
		var ps []Val
		var enc []string
		n := 1
		if op != "const" {
			n = g.Intn(5)
		}
		for len(ps) < n {
			ps = append(ps, g.jparam(t))
			enc = append(enc, jenc(t, ps[len(ps)-1]))
		}
		v := g.jval(t, ps...)
		has := false
		for _, p := range ps {
			has = has || jcmp(t, v, p) == 0
		}
		return JCase{op, t, []string{jenc(t, v), joinOr(enc)}}, bit(has != (op == "notIn"))
	case "within":
		when := g.tsParam()
		d := g.durParam()
		v := g.jval("ts", when)
		if g.P(70) {
			x := timeAdd(when.D, d.D, pick(g, []int64{-1, 1}))
			v = g.jval("ts", Val{D: x})
		}
		if d.D[0] < 0 || d.D[1] < 0 || !tsValid(when.D[0], when.D[1]) {
			return JCase{op, "ts", []string{jenc("ts", v), jenc("dur", d), jenc("ts", when)}}, "?"
		}
		lo, hi := timeAdd(when.D, d.D, -1), timeAdd(when.D, d.D, 1)
		return JCase{op, "ts", []string{jenc("ts", v), jenc("dur", d), jenc("ts", when)}}, bit(durCmp(v.D, lo) >= 0 && durCmp(v.D, hi) <= 0)
	case "minItems", "maxItems", "unique", "forEach", "parts":
		t := pick(g, jeq)
		if op == "forEach" || op == "parts" {
			t = pick(g, jnum)
		}
		n := g.Intn(pick(g, []int{1, 3, 6, 12}))
		var l []Val
		var enc []string
		dup := false
		for len(l) < n {
			v := g.jparam(t)
			if len(l) > 0 && g.P(12) {
				v = pick(g, l)
			} else if len(l) > 0 && g.P(30) {
				v = g.jval(t, l...)
			}
			for _, w := range l {
				dup = dup || jcmp(t, v, w) == 0
			}
			l = append(l, v)
			enc = append(enc, jenc(t, v))
		}
		switch op {
		case "unique":
			return JCase{op, t, []string{joinOr(enc)}}, bit(!dup)
		case "forEach", "parts":
			p := g.jparam(t)
			ok := true
			for _, v := range l {
				ok = ok && jcmp(t, v, p) < 0
			}
			return JCase{op, t, []string{joinOr(enc), jenc(t, p)}}, bit(ok)
		}
		k := g.count(n)
		return JCase{op, t, []string{joinOr(enc), fmt.Sprint(k)}}, bit(op == "minItems" && n >= k || op == "maxItems" && n <= k)
	case "min", "max":
		n := g.Intn(6)
		k := g.count(n)
		return JCase{op, "map", []string{fmt.Sprint(n), fmt.Sprint(k)}}, bit(op == "min" && n >= k || op == "max" && n <= k)
	case "definedOnly":
		n := g.Intn(2)
		return JCase{op, "enum", []string{fmt.Sprint(n)}}, bit(n == 0)
	case "required":
		n := g.Intn(2)
		return JCase{op, "msg", []string{fmt.Sprint(n)}}, bit(n == 1)
	case "index", "threads":
		s, want := g.indexScript()
		return JCase{op, "script", []string{s}}, want
	}
	if strings.HasPrefix(op, "b.") {
		return g.jbytes(op)
	}
	// strings
	one := func(s string, ok bool) (JCase, string) { return JCase{op, "str", []string{jstr(s)}}, bit(ok) }
	valid := func(s string) string { return strings.ToValidUTF8(s, "é") }
	switch op {
	case "prefix", "suffix", "contains", "notContains":
		k := map[string]byte{"prefix": 'p', "suffix": 's', "contains": 'c', "notContains": 'n'}[op]
		a, b := g.twoStrings(k)
		a, b = valid(a), valid(b)
		if k == 'p' || k == 's' {
			a, b = b, a
		}
		ok := map[byte]func(s, x string) bool{'p': strings.HasPrefix, 's': strings.HasSuffix, 'c': strings.Contains, 'n': func(s, x string) bool { return !strings.Contains(s, x) }}[k](a, b)
		return JCase{op, "str", []string{jstr(a), jstr(b)}}, bit(ok)
	case "length", "minLength", "maxLength", "lenBytes", "minBytes", "maxBytes":
		s := valid(g.utf8ish())
		n := utf8.RuneCountInString(s)
		if strings.HasSuffix(op, "Bytes") {
			n = len(s)
		}
		k := g.count(n)
		if g.P(10) { // as UTF-16
			k = n
			for _, r := range s {
				if r > 0xffff {
					k++
				}
			}
		}
		ok := n == k || strings.HasPrefix(op, "min") && n > k || strings.HasPrefix(op, "max") && n < k
		return JCase{op, "str", []string{jstr(s), fmt.Sprint(k)}}, bit(ok)
	case "pattern":
		p := pick(g, jpats)
		s := valid(g.patternVal(p))
		return JCase{op, "str", []string{jstr(s), jstr(p)}}, bit(regexp.MustCompile(`\A(?:` + p + `)\z`).MatchString(s))
	}
	s := valid(g.wellKnown(op))
	if javaUnsureText(op, s) || op == "ip" && V4Mapped(s) || op == "address" && V4Mapped(s) {
		return JCase{op, "str", []string{jstr(s)}}, "?"
	}
	return one(s, WellKnownOK(op, s))
}

func op2pct(op string) int {
	if op == "threads" {
		return 80
	}
	return 30
}

func joinOr(l []string) string {
	if len(l) == 0 {
		return "-"
	}
	return strings.Join(l, ",")
}

// count draws a limit near n.
func (g *G) count(n int) int {
	switch g.Intn(8) {
	case 0:
		return g.Intn(30)
	case 1:
		return pick(g, []int{0, 1, math.MaxInt32})
	}
	return max(0, n+g.Intn(3)-1)
}

func (g *G) jbytes(op string) (JCase, string) {
	bit := func(v bool) string {
		if v {
			return "T"
		}
		return "F"
	}
	switch op {
	case "b.length", "b.minLength", "b.maxLength":
		s := string(g.raw(g.Intn(8)))
		n := len(s)
		k := g.count(n)
		return JCase{op, "byt", []string{jstr(s), fmt.Sprint(k)}}, bit(n == k || op == "b.minLength" && n > k || op == "b.maxLength" && n < k)
	case "b.pattern":
		p := pick(g, jpats)
		s := strings.ToValidUTF8(g.patternVal(p), "é")
		return JCase{op, "byt", []string{jstr(s), jstr(p)}}, bit(regexp.MustCompile(`\A(?:` + p + `)\z`).MatchString(s))
	case "b.prefix", "b.suffix", "b.contains":
		k := map[string]byte{"b.prefix": 'p', "b.suffix": 's', "b.contains": 'c'}[op]
		a, b := g.twoStrings(k)
		if k != 'c' {
			a, b = b, a
		}
		ok := map[byte]func(s, x string) bool{'p': strings.HasPrefix, 's': strings.HasSuffix, 'c': strings.Contains}[k](a, b)
		return JCase{op, "byt", []string{jstr(a), jstr(b)}}, bit(ok)
	}
	n := pick(g, []int{0, 1, 3, 4, 5, 8, 15, 16, 17, 32})
	if g.P(50) {
		n = pick(g, []int{4, 16})
	}
	ok := n == 4 && op != "b.ipv6" || n == 16 && op != "b.ipv4"
	return JCase{op, "byt", []string{jstr(string(g.raw(n)))}}, bit(ok)
}

// ---- the indexes -----------------------------------------------------------

type jindex struct {
	explicit bool
	fallback int         // -1 accepts everything, -2 nothing
	used     bool        // as a fallback
	deleg    bool        // has validators that ask for those of other classes
	add      map[int]int // class: -1 valid, -2 invalid, or as that class
}

const jclasses = 6

func jvalid(l []*jindex, i, c int) bool {
	if i < 0 {
		return i == -1
	}
	x := l[i]
	v, ok := x.add[c]
	switch {
	case !ok:
		return jvalid(l, x.fallback, c)
	case v < 0:
		return v == -1
	}
	return jvalid(l, i, v)
}

func (g *G) indexScript() (string, string) {
	var l []*jindex
	var steps []string
	var kept [][2]int
	var want strings.Builder
	bit := func(v bool) {
		if v {
			want.WriteByte('T')
		} else {
			want.WriteByte('F')
		}
	}
	name := func(i int) string {
		switch i {
		case -1:
			return "V"
		case -2:
			return "I"
		}
		return fmt.Sprint(i)
	}
	mk := func() {
		x := &jindex{explicit: g.P(75), fallback: -1, add: map[int]int{}}
		op := "R"
		if x.explicit {
			op = "E"
		}
		if g.P(75) {
			x.fallback = g.Intn(len(l)+2) - 2
			if x.fallback >= 0 && l[x.fallback].deleg {
				x.fallback = -2
			}
			op += ":" + name(x.fallback)
			if x.fallback >= 0 {
				l[x.fallback].used = true
			}
		}
		l = append(l, x)
		steps = append(steps, op)
	}
	mk()
	for n := 3 + g.Intn(14); n > 0; n-- {
		i := g.Intn(len(l))
		c := g.Intn(jclasses)
		switch k := g.Intn(10); {
		case k == 0 && len(l) < 4:
			mk()
		case k < 4 && l[i].explicit:
			v := pick(g, []int{-1, -1, -2, -2, 0})
			s := ""
			switch {
			case v == 0 && !l[i].used && c+1 < jclasses:
				v = c + 1 + g.Intn(jclasses-c-1)
				s = fmt.Sprint(v)
				l[i].deleg = true
			case v == -2:
				s = "I"
			default:
				v = -1
				s = pick(g, []string{"V", "A"})
			}
			l[i].add[c] = v
			steps = append(steps, fmt.Sprintf("A:%d:%d:%s", i, c, s))
		case k == 4:
			kept = append(kept, [2]int{i, c})
			steps = append(steps, fmt.Sprintf("K:%d:%d", i, c))
		case k < 7 && len(kept) > 0:
			j := g.Intn(len(kept))
			steps = append(steps, fmt.Sprintf("U:%d:%d", j, kept[j][1]))
			bit(jvalid(l, kept[j][0], kept[j][1]))
		default:
			steps = append(steps, fmt.Sprintf("%s:%d:%d", pick(g, []string{"Q", "C"}), i, c))
			bit(jvalid(l, i, c))
		}
	}
	return strings.Join(steps, ","), want.String()
}
