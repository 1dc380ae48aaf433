package pv

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"time"

	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
)

// Case is one message given to the generated validation code.
type Case struct {
	Msg  string // full name
	Wire string // hex
	Nils []Nil  `json:",omitempty"`
	Now  int64  `json:",omitempty"` // clock at generation time, for clock-relative rules
}

// Failure is a case on which the generated code and the reference disagree.
type Failure struct {
	Kind   string
	Detail string
	Text   string // the message, in text format
	Rules  string // the message declaration
	Case   Case
}

// Stats are counted on the run.
type Stats struct {
	Evaluations int
	Distinct    int
	Valid       int
	Invalid     int
	MsgTypes    int
	ByRule      map[string]int
	ByTag       map[string]int
	Nested      int
	NilElems    int
	Samples     []string
	Extra       map[string]int
}

type Result struct {
	Stats    Stats
	Failures []Failure
}

type validator interface{ Validate() error }
type allValidator interface{ ValidateAll() error }
type fieldError interface {
	error
	Field() string
	Reason() string
	Key() bool
	Cause() error
	ErrorName() string
}
type multiError interface {
	error
	AllErrors() []error
}

// Driver runs inside the binary the generated code is linked into.
type Driver struct {
	md      *Model
	reg     *Reg
	mode    string
	g       *G
	res     Result
	seen    map[string]bool
	maxFail int
	hasNils bool // the message at hand has nil elements
}

func newMsg(full string) (proto.Message, error) {
	mt, err := protoregistry.GlobalTypes.FindMessageByName(protoreflect.FullName(full))
	if err != nil {
		return nil, err
	}
	return mt.New().Interface(), nil
}

func applyNils(m proto.Message, nils []Nil) {
	for _, n := range nils {
		fv := reflect.ValueOf(m).Elem().FieldByName(GoCamel(n.Field))
		if !fv.IsValid() {
			continue
		}
		switch fv.Kind() {
		case reflect.Slice:
			if n.Idx < fv.Len() {
				fv.Index(n.Idx).Set(reflect.Zero(fv.Type().Elem()))
			}
		case reflect.Map:
			k := reflect.ValueOf(n.Key)
			if n.Key != nil && k.Type().ConvertibleTo(fv.Type().Key()) {
				if fv.IsNil() {
					fv.Set(reflect.MakeMap(fv.Type()))
				}
				fv.SetMapIndex(k.Convert(fv.Type().Key()), reflect.Zero(fv.Type().Elem()))
			}
		}
	}
}

func call(f func() error) (err error, pan string) {
	defer func() {
		if r := recover(); r != nil {
			pan = fmt.Sprint(r)
		}
	}()
	return f(), ""
}

// keyed marks the name of a map entry whose key is meant.
func keyed(field string, key bool) string {
	if key {
		return field + " (key)"
	}
	return field
}

func fieldsOf(viols []Viol) []string {
	set := map[string]bool{}
	for _, v := range viols {
		set[keyed(v.Field, v.Key)] = true
	}
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func violText(viols []Viol) string {
	var l []string
	for _, v := range viols {
		s := v.Field + ":" + v.Rule
		if v.Cause != nil {
			s += "(" + violText(v.Cause) + ")"
		}
		l = append(l, s)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func fieldsOfErr(err error) ([]string, string) {
	if err == nil {
		return nil, ""
	}
	me, ok := err.(multiError)
	if !ok {
		return nil, fmt.Sprintf("ValidateAll returned a %T, which has no AllErrors", err)
	}
	set := map[string]bool{}
	for _, e := range me.AllErrors() {
		fe, ok := e.(fieldError)
		if !ok {
			return nil, fmt.Sprintf("ValidateAll lists a %T, which is no field error", e)
		}
		set[keyed(fe.Field(), fe.Key())] = true
	}
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out, ""
}

// Check compares one message with the reference. It returns "" or what is
// wrong.
func (d *Driver) Check(msg *Msg, m proto.Message) (kind, detail string, viols []Viol) {
	d.md.Now = time.Now()
	viols = d.md.Eval(msg, m.ProtoReflect())
	v, ok := m.(validator)
	if msg.Ignored {
		if ok {
			return "methods", "a message with validate.ignored has a Validate method", viols
		}
		return "", "", viols
	}
	if !ok {
		return "methods", fmt.Sprintf("%T has no Validate method", m), viols
	}
	va, ok := m.(allValidator)
	if !ok {
		return "methods", fmt.Sprintf("%T has no ValidateAll method", m), viols
	}
	err, pan := call(v.Validate)
	if pan != "" {
		return "panic", "Validate panics: " + pan, viols
	}
	all, pan := call(va.ValidateAll)
	if pan != "" {
		return "panic", "ValidateAll panics: " + pan, viols
	}
	want := len(viols) == 0
	if (err == nil) != want {
		return "verdict", fmt.Sprintf("Validate() = %v, the rules say violations = [%s]", err, violText(viols)), viols
	}
	if (all == nil) != want {
		return "verdict-all", fmt.Sprintf("ValidateAll() = %v, the rules say violations = [%s]", all, violText(viols)), viols
	}
	if d.mode == "api" {
		return "", "", viols // names of fields are another matter
	}
	got, bad := fieldsOfErr(all)
	if bad != "" {
		return "error-type", bad, viols
	}
	wf := fieldsOf(viols)
	if strings.Join(got, "\x00") != strings.Join(wf, "\x00") {
		return "fields", fmt.Sprintf("ValidateAll names the fields %q, the rules are broken by %q: %v", got, wf, all), viols
	}
	if err != nil {
		fe, ok := err.(fieldError)
		if !ok {
			return "error-type", fmt.Sprintf("Validate returned a %T, which is no field error", err), viols
		}
		hit := false
		for _, f := range wf {
			hit = hit || f == keyed(fe.Field(), fe.Key())
		}
		if !hit {
			return "fields", fmt.Sprintf("Validate names the field %q, the rules are broken by %q", fe.Field(), wf), viols
		}
	}
	if d.mode == "structure" {
		if k, s := d.structure(msg, m, viols, err, all); k != "" {
			return k, s, viols
		}
	}
	if d.mode == "purity" {
		if k, s := d.purity(m, err, all); k != "" {
			return k, s, viols
		}
	}
	return "", "", viols
}

// structure checks the shape of the errors against the violations.
func (d *Driver) structure(msg *Msg, m proto.Message, viols []Viol, err, all error) (string, string) {
	if s := d.structAll(msg, viols, all); s != "" {
		return "structure", s
	}
	if err == nil {
		return "", ""
	}
	if s := d.structOne(msg, viols, err, false); s != "" {
		return "structure", s
	}
	if !hasMapViolation(msg, viols) {
		first := all.(multiError).AllErrors()[0].(fieldError)
		fe := err.(fieldError)
		if first.Field() != fe.Field() || first.Reason() != fe.Reason() {
			return "structure", fmt.Sprintf("Validate() = %v, but the first error of ValidateAll() is %v", err, first)
		}
	}
	return "", ""
}

func hasMapViolation(msg *Msg, viols []Viol) bool {
	for _, f := range msg.Fields {
		if f.Card == "map" {
			return true
		}
	}
	return false
}

func errName(full string, reg *Reg) string {
	// Go type name of the message: nested names are joined with underscores
	return ""
}

// structOne checks one field error against the violations of message msg.
func (d *Driver) structOne(msg *Msg, viols []Viol, e error, all bool) string {
	fe, ok := e.(fieldError)
	if !ok {
		return fmt.Sprintf("%T is no field error", e)
	}
	want := goTypeName(msg.full, d.reg) + "ValidationError"
	if fe.ErrorName() != want {
		return fmt.Sprintf("ErrorName() = %q, want %q", fe.ErrorName(), want)
	}
	if fe.Reason() == "" {
		return "an error without a reason"
	}
	txt := fe.Error()
	if !strings.Contains(txt, fe.Field()) || !strings.Contains(txt, fe.Reason()) || !strings.Contains(txt, goTypeName(msg.full, d.reg)+".") {
		return fmt.Sprintf("Error() = %q does not name message %s, field %q and reason %q", txt, goTypeName(msg.full, d.reg), fe.Field(), fe.Reason())
	}
	if fe.Cause() != nil && !strings.Contains(txt, fe.Cause().Error()) {
		if len(msg.Fields) > 0 && !strings.Contains(txt, "caused by") {
			return fmt.Sprintf("Error() = %q leaves out its cause %q", txt, fe.Cause())
		}
	}
	if fe.Key() != strings.Contains(txt, "key for ") && !strings.Contains(fe.Reason(), "key for ") {
		return fmt.Sprintf("Key() = %v, Error() = %q", fe.Key(), txt)
	}
	// one of the violations has to explain it
	var why []string
	for _, v := range viols {
		if v.Field != fe.Field() {
			continue
		}
		if v.Key != fe.Key() {
			why = append(why, fmt.Sprintf("Key() = %v for a violation of %s on field %s", fe.Key(), v.Rule, v.Field))
			continue
		}
		if v.Cause == nil {
			if fe.Cause() != nil {
				if _, ok := fe.Cause().(fieldError); ok {
					why = append(why, "a cause that is a field error on a violation that is no embedded message")
					continue
				}
			}
			return ""
		}
		if fe.Cause() == nil {
			why = append(why, "an embedded message's violation without a cause")
			continue
		}
		sub := d.subMsg(msg, v.Field)
		s := ""
		if all {
			s = d.structAll(sub, v.Cause, fe.Cause())
		} else {
			s = d.structOne(sub, v.Cause, fe.Cause(), false)
		}
		if s == "" {
			return ""
		}
		why = append(why, s)
	}
	return fmt.Sprintf("no violation explains %v: %s (violations %s)", e, strings.Join(why, "; "), violText(viols))
}

func (d *Driver) subMsg(msg *Msg, field string) *Msg {
	if i := strings.IndexByte(field, '['); i >= 0 {
		field = field[:i]
	}
	for _, f := range msg.Fields {
		if GoCamel(f.Name) == field {
			return d.reg.Msgs[f.TypeName]
		}
	}
	return nil
}

// structAll: the list has exactly one error per violation.
func (d *Driver) structAll(msg *Msg, viols []Viol, err error) string {
	if len(viols) == 0 {
		if err != nil {
			return fmt.Sprintf("%v on a valid message", err)
		}
		return ""
	}
	me, ok := err.(multiError)
	if !ok {
		return fmt.Sprintf("%T has no AllErrors", err)
	}
	l := me.AllErrors()
	count := map[string]int{}
	for _, v := range viols {
		count[fmt.Sprint(v.Field, v.Key, v.Cause != nil)]++
	}
	for _, e := range l {
		if s := d.structOne(msg, viols, e, true); s != "" {
			return s
		}
		if !strings.Contains(me.Error(), e.Error()) {
			return fmt.Sprintf("the text of the list, %q, leaves out %q", me, e)
		}
		fe := e.(fieldError)
		emb := false
		if fe.Cause() != nil {
			_, emb = fe.Cause().(multiError)
		}
		count[fmt.Sprint(fe.Field(), fe.Key(), emb)]--
	}
	for k, n := range count {
		if n != 0 {
			return fmt.Sprintf("ValidateAll lists %d errors, the rules count %d violations (%s: %+d): %v, violations %s", len(l), len(viols), k, -n, err, violText(viols))
		}
	}
	return ""
}

func goTypeName(full string, reg *Reg) string {
	// strip the package: the longest prefix that is no message
	parts := strings.Split(full, ".")
	for i := range parts {
		if reg.Msgs[strings.Join(parts[:i+1], ".")] != nil {
			var l []string
			for _, p := range parts[i:] {
				l = append(l, GoCamel(p))
			}
			return strings.Join(l, "_")
		}
	}
	return full
}

func safeErr(e error) string {
	if e == nil {
		return "<nil>"
	}
	return e.Error()
}

func sortedErr(e error) string {
	s := strings.Split(safeErr(e), "; ")
	sort.Strings(s)
	return strings.Join(s, "; ")
}

// purity: validation changes nothing, gives the same answer again, on a
// decoded copy, and from several goroutines.
func (d *Driver) purity(m proto.Message, err, all error) (string, string) {
	det := proto.MarshalOptions{Deterministic: true, AllowPartial: true}
	before, merr := det.Marshal(m)
	if merr != nil {
		return "", "" // invalid UTF-8 or nil elements: not comparable on the wire
	}
	text := prototext.Format(m)
	hasMap := false
	m.ProtoReflect().Range(func(fd protoreflect.FieldDescriptor, _ protoreflect.Value) bool {
		hasMap = hasMap || fd.IsMap() || fd.Message() != nil
		return true
	})
	e1, _ := call(m.(validator).Validate)
	a1, _ := call(m.(allValidator).ValidateAll)
	after, _ := det.Marshal(m)
	if string(before) != string(after) || prototext.Format(m) != text {
		return "mutation", fmt.Sprintf("validation changed the message from %x to %x", before, after)
	}
	if (e1 == nil) != (err == nil) || (a1 == nil) != (all == nil) {
		return "nondeterminism", fmt.Sprintf("validating twice: %v, %v and %v, %v", err, e1, all, a1)
	}
	if !hasMap && (safeErr(e1) != safeErr(err) || safeErr(a1) != safeErr(all)) {
		return "nondeterminism", fmt.Sprintf("validating twice: %v, %v and %v, %v", err, e1, all, a1)
	}
	if d.hasNils {
		return "", "" // nil elements become empty messages on the wire
	}
	cp := m.ProtoReflect().New().Interface()
	if uerr := (proto.UnmarshalOptions{AllowPartial: true}).Unmarshal(before, cp); uerr != nil {
		return "", ""
	}
	e2, pan := call(cp.(validator).Validate)
	if pan != "" {
		return "panic", "Validate panics on the decoded message: " + pan
	}
	a2, pan := call(cp.(allValidator).ValidateAll)
	if pan != "" {
		return "panic", "ValidateAll panics on the decoded message: " + pan
	}
	if (e2 == nil) != (err == nil) || (a2 == nil) != (all == nil) {
		return "round-trip", fmt.Sprintf("before the round trip %v, after it %v", err, e2)
	}
	// concurrent calls
	type pair struct {
		e, a error
		p    string
	}
	ch := make(chan pair)
	const k = 4
	for i := 0; i < k; i++ {
		go func() {
			var p pair
			var q string
			p.e, p.p = call(m.(validator).Validate)
			p.a, q = call(m.(allValidator).ValidateAll)
			p.p += q
			ch <- p
		}()
	}
	out := [2]string{}
	for i := 0; i < k; i++ {
		p := <-ch
		if p.p != "" {
			out = [2]string{"panic", "concurrent validation panics: " + p.p}
		} else if (p.e == nil) != (err == nil) || (p.a == nil) != (all == nil) {
			out = [2]string{"nondeterminism", fmt.Sprintf("concurrent validation: %v, alone: %v", p.e, err)}
		}
	}
	return out[0], out[1]
}

// ---- nil receivers and odd inputs ---------------------------------------

// CheckNil calls the methods on a nil pointer of the message type.
func (d *Driver) CheckNil(msg *Msg, m proto.Message) (string, string) {
	if msg.Ignored {
		return "", ""
	}
	z := reflect.Zero(reflect.TypeOf(m)).Interface()
	v, ok := z.(validator)
	if !ok {
		return "", ""
	}
	err, pan := call(v.Validate)
	if pan != "" || err != nil {
		return "nil", fmt.Sprintf("Validate on a nil message: %v %s", err, pan)
	}
	if va, ok := z.(allValidator); ok {
		err, pan = call(va.ValidateAll)
		if pan != "" || err != nil {
			return "nil", fmt.Sprintf("ValidateAll on a nil message: %v %s", err, pan)
		}
	}
	return "", ""
}

// ---- the run -------------------------------------------------------------

func (d *Driver) note(msg *Msg, m proto.Message, nils []Nil, viols []Viol) {
	s := &d.res.Stats
	s.Evaluations++
	if len(viols) == 0 {
		s.Valid++
	} else {
		s.Invalid++
	}
	var rec func(v []Viol, depth int)
	rec = func(l []Viol, depth int) {
		for _, v := range l {
			s.ByRule[v.Rule]++
			if v.Cause != nil {
				s.Nested++
				rec(v.Cause, depth+1)
			}
		}
	}
	rec(viols, 0)
	s.ByTag[msg.Tag]++
	if len(nils) > 0 {
		s.NilElems++
	}
	b, _ := proto.MarshalOptions{Deterministic: true, AllowPartial: true}.Marshal(m)
	h := sha256.Sum256([]byte(msg.full + string(b) + fmt.Sprint(nils)))
	key := string(h[:12])
	if !d.seen[key] {
		d.seen[key] = true
		// non-trivial: something is set, or some rule is broken
		if len(b) > 0 || len(viols) > 0 {
			s.Distinct++
			if len(s.Samples) < 8 && len(d.seen)%97 == 1 {
				s.Samples = append(s.Samples, fmt.Sprintf("%s {%s} -> violations [%s]", msg.full, short(prototext.MarshalOptions{}.Format(m), 300), short(violText(viols), 200)))
			}
		}
	}
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (d *Driver) drawNils(msg *Msg, m proto.Message) []Nil {
	var out []Nil
	for _, f := range msg.Fields {
		if f.Kind != "message" || f.Card != "map" && f.Card != "repeated" || !d.g.P(25) {
			continue
		}
		fd := m.ProtoReflect().Descriptor().Fields().ByName(protoreflect.Name(f.Name))
		if f.Card == "repeated" {
			if n := m.ProtoReflect().Get(fd).List().Len(); n > 0 {
				out = append(out, Nil{Field: f.Name, Idx: d.g.Intn(n)})
			}
			continue
		}
		k := d.g.good(d.md, &Field{Kind: f.KeyKind}, keyRules(f), 60)
		out = append(out, Nil{Field: f.Name, Key: k.Interface()})
	}
	return out
}

func keyRules(f *Field) *Rules {
	if f.Rules != nil && f.Rules.Keys != nil {
		return f.Rules.Keys
	}
	return nil
}

func (d *Driver) fail(msg *Msg, m proto.Message, nils []Nil, kind, detail string) {
	if len(d.res.Failures) >= d.maxFail {
		return
	}
	m, nils, kind2, detail2 := d.shrink(msg, m, nils, kind, detail)
	b, _ := proto.MarshalOptions{AllowPartial: true}.Marshal(m)
	var t strings.Builder
	msg.write(&t, "", "")
	d.res.Failures = append(d.res.Failures, Failure{
		Kind: kind2, Detail: detail2, Rules: t.String(),
		Text: prototext.MarshalOptions{}.Format(m) + nilText(nils),
		Case: Case{Msg: msg.full, Wire: hex.EncodeToString(b), Nils: nils, Now: d.md.Now.Unix()},
	})
}

func nilText(nils []Nil) string {
	if len(nils) == 0 {
		return ""
	}
	return fmt.Sprintf(" nil elements: %+v", nils)
}

// one runs a case on a fresh copy.
func (d *Driver) one(msg *Msg, m proto.Message, nils []Nil) (string, string, []Viol, proto.Message) {
	c := proto.Clone(m)
	applyNils(c, nils)
	d.hasNils = len(nils) > 0
	k, s, v := d.Check(msg, c)
	return k, s, v, c
}

func (d *Driver) Run(perType int) {
	var names []string
	for n := range d.reg.Msgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		msg := d.reg.Msgs[n]
		if msg.Tag == "" {
			continue // only referenced by others
		}
		m, err := newMsg(n)
		if err != nil {
			d.res.Failures = append(d.res.Failures, Failure{Kind: "missing", Detail: err.Error(), Case: Case{Msg: n}})
			continue
		}
		d.res.Stats.MsgTypes++
		if k, s := d.CheckNil(msg, m); k != "" {
			d.fail(msg, m, nil, k, s)
			continue
		}
		for i := 0; i < perType; i++ {
			m, _ := newMsg(n)
			pct := []int{95, 80, 50, 20}[d.g.Intn(4)]
			if i > 0 {
				d.md.Now = time.Now()
				d.g.Fill(d.md, msg, m.ProtoReflect(), 3, pct)
			}
			nils := d.drawNils(msg, m)
			k, s, viols, c := d.one(msg, m, nils)
			_ = c
			d.note(msg, m, nils, viols)
			if k != "" {
				d.fail(msg, m, nils, k, s)
				break
			}
		}
	}
}

// DriverMain is the main function of the driver binary.
func DriverMain() {
	schema := flag.String("schema", "", "")
	mode := flag.String("mode", "verdict", "")
	seed := flag.Int64("seed", 1, "")
	per := flag.Int("per", 40, "")
	out := flag.String("out", "", "")
	replay := flag.String("replay", "", "case file to replay")
	dump := flag.String("dump", "", "write cases with the reference verdicts here instead of checking Go")
	full := flag.Bool("fullmatch", false, "")
	cc := flag.Bool("cc", false, "")
	java := flag.Bool("java", false, "")
	py := flag.Bool("py", false, "")
	plain := flag.Bool("plain", false, "the reference of Go even for Java")
	flag.Parse()
	s, err := LoadSchema(*schema)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	reg := NewReg(s)
	d := &Driver{reg: reg, md: &Model{Reg: reg, Now: time.Now(), FullMatch: *full}, mode: *mode, g: NewG(*seed), seen: map[string]bool{}, maxFail: 5}
	d.g.CC = *cc
	d.md.CC = *cc
	d.g.Java, d.md.Java = *java, *java && !*plain
	d.g.Py, d.md.Py = *py, *py && !*plain
	d.res.Stats.ByRule = map[string]int{}
	d.res.Stats.ByTag = map[string]int{}
	switch {
	case *replay != "" && *dump != "":
		b, err := os.ReadFile(*replay)
		var c Case
		if err == nil {
			err = json.Unmarshal(b, &c)
		}
		if err == nil {
			err = d.Smaller(c, *dump)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	case *replay != "":
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		var c Case
		if err := json.Unmarshal(b, &c); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		d.Replay(c)
	case *dump != "":
		if err := d.Dump(*dump, *per); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	default:
		d.Run(*per)
	}
	b, _ := json.MarshalIndent(d.res, "", " ")
	if err := os.WriteFile(*out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func (d *Driver) Replay(c Case) {
	msg := d.reg.Msgs[c.Msg]
	m, err := newMsg(c.Msg)
	if err != nil || msg == nil {
		d.res.Failures = append(d.res.Failures, Failure{Kind: "missing", Detail: fmt.Sprint(err)})
		return
	}
	b, _ := hex.DecodeString(c.Wire)
	if err := (proto.UnmarshalOptions{AllowPartial: true}).Unmarshal(b, m); err != nil {
		d.res.Failures = append(d.res.Failures, Failure{Kind: "replay", Detail: err.Error()})
		return
	}
	if c.Now != 0 {
		ShiftNow(d.reg, msg, m.ProtoReflect(), time.Now().Unix()-c.Now)
	}
	for i := range c.Nils {
		c.Nils[i].Key = fixKey(msg, c.Nils[i])
	}
	k, s := d.CheckNil(msg, m)
	var viols []Viol
	if k == "" {
		k, s, viols, _ = d.one(msg, m, c.Nils)
	}
	d.note(msg, m, c.Nils, viols)
	if k != "" {
		d.maxFail = 1
		d.fail(msg, m, c.Nils, k, s)
	}
}

// fixKey undoes what JSON does to integer map keys.
func fixKey(msg *Msg, n Nil) interface{} {
	f, ok := n.Key.(float64)
	if !ok {
		return n.Key
	}
	return int64(f)
}
