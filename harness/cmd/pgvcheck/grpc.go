package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"verif/harness/pv"
)

// The gRPC interceptors of the Java runtime. gRPC itself is a stand-in in
// harness/java/grpcstub: calls that record what reaches them.

var grpcOnce sync.Once
var grpcPath string

func (e *Env) grpcLib() string {
	grpcOnce.Do(func() {
		base := e.javaLib()
		d := filepath.Join(e.Tmp, "grpcbase")
		gen, out := filepath.Join(d, "gen"), filepath.Join(d, "classes")
		must(os.MkdirAll(gen, 0o755), "mkdir")
		must(os.MkdirAll(out, 0o755), "mkdir")
		protos := filepath.Join(e.Verif, "harness/java/grpcstub/proto")
		args := []string{"-I", protos, "-I", e.Repo, "--java_out=" + gen}
		for _, n := range []string{"google/rpc/status.proto", "google/rpc/code.proto", "google/rpc/error_details.proto", "grpccase.proto"} {
			args = append(args, n)
		}
		if o := run(d, nil, time.Minute, nil, "protoc", args...); o.code != 0 {
			panic(broken{fmt.Errorf("protoc: %s", o.both())})
		}
		if o := run(d, nil, time.Minute, nil, "protoc", "-I", protos, "-I", e.Repo, "--plugin=protoc-gen-validate="+e.plugin, "--validate_out=lang=java:"+gen, "grpccase.proto"); o.code != 0 {
			panic(broken{fmt.Errorf("protoc: %s", o.both())})
		}
		src := javaFiles(gen, filepath.Join(e.Verif, "harness/java/grpcstub"), filepath.Join(e.Verif, "harness/java/grpcrun"),
			filepath.Join(e.Repo, "java/pgv-java-grpc/src/main/java"))
		if g := e.javac(d, append([]string{"-cp", base, "-d", out}, src...)...); g != nil {
			panic(broken{fmt.Errorf("the gRPC interceptors do not compile: %s", head(g.Text, 3000))})
		}
		grpcPath = out + ":" + base
	})
	return grpcPath
}

type gMsg struct {
	Type    string
	Wire    []byte
	Valid   bool   // under the generated validators
	Verdict string // of the scripted validator: ok, boom, field:reason:value
}

type gOp struct {
	Call int
	Op   string
	Msg  int
}

func (o gOp) text() string {
	s := o.Op
	if s == "msg" || s == "send" || s == "req" {
		s += fmt.Sprint(o.Msg)
	}
	return fmt.Sprintf("%d:%s", o.Call, s)
}

// GScript is a script of calls through one interceptor.
type GScript struct {
	Kind  string // server or client
	Par   bool
	Index string // script, reflect, valid, invalid
	Calls int
	Msgs  []gMsg
	Ops   []gOp
}

func (s *GScript) line() string {
	var m, o []string
	for _, x := range s.Msgs {
		m = append(m, fmt.Sprintf("%s=%x=%s", x.Type, x.Wire, x.Verdict))
	}
	for _, x := range s.Ops {
		o = append(o, x.text())
	}
	par := "0"
	if s.Par {
		par = "1"
	}
	return strings.Join([]string{s.Kind, par, s.Index, fmt.Sprint(s.Calls), strings.Join(m, ";"), strings.Join(o, ",")}, "\t")
}

func (s *GScript) show() string {
	var o []string
	for _, x := range s.Ops {
		o = append(o, x.text())
	}
	var m []string
	for i, x := range s.Msgs {
		v := "valid"
		switch {
		case s.Index == "script" && x.Verdict == "boom":
			v = "the validator throws an IllegalArgumentException"
		case !s.ok(i):
			v = "invalid"
		}
		m = append(m, fmt.Sprintf("%d: %s (%s)", i, x.Type, v))
	}
	return fmt.Sprintf("%s interceptor, %d calls, %s index, parallel %v; messages %s; steps %s", s.Kind, s.Calls, s.Index, s.Par, strings.Join(m, ", "), strings.Join(o, " "))
}

func (s *GScript) ok(i int) bool {
	switch s.Index {
	case "script":
		return s.Msgs[i].Verdict == "ok"
	case "reflect":
		return s.Msgs[i].Valid
	}
	return s.Index == "valid"
}

func hexText(s string) string { return "x" + hex.EncodeToString([]byte(s)) }

func unhexText(s string) string {
	b, err := hex.DecodeString(strings.TrimPrefix(s, "x"))
	must(err, "hex")
	return string(b)
}

func pbVarint(n int, v uint64) []byte {
	b := []byte{byte(n << 3)}
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func pbBytes(n int, v []byte) []byte {
	b := pbVarint(n, uint64(len(v)))
	b[0] |= 2
	return append(b, v...)
}

func gReq(g *pv.G, depth int) ([]byte, bool) {
	b, ok := pbVarint(1, uint64(g.Intn(100))), true
	if g.P(70) {
		s := gText(g, 8)
		b = append(b, pbBytes(2, []byte(s))...)
		ok = ok && utf8.RuneCountInString(s) <= 5
	}
	if depth > 0 {
		for n := g.Intn(3); n > 0; n-- {
			in, inOK := gReq(g, depth-1)
			b = append(b, pbBytes(3, in)...)
			ok = ok && inOK
		}
	}
	if g.P(30) {
		a := g.Intn(5)
		b = append(b, pbVarint(4, uint64(a))...)
		ok = ok && a < 3
	}
	return b, ok
}

func gText(g *pv.G, max int) string {
	var b strings.Builder
	for n := g.Intn(max + 1); n > 0; n-- {
		b.WriteString([]string{"a", "Z", "%", "\n", "é", "漢", "😀", "\"", ":", "{}", "\\", "\x00"}[g.Intn(12)])
	}
	return b.String()
}

func gScript(g *pv.G) *GScript {
	s := &GScript{Kind: "server", Par: g.P(30), Calls: 1 + g.Intn(4)}
	if g.P(40) {
		s.Kind = "client"
	}
	switch n := g.Intn(20); {
	case n < 9:
		s.Index = "script"
	case n < 18:
		s.Index = "reflect"
	case n < 19:
		s.Index = "valid"
	default:
		s.Index = "invalid"
	}
	bad := []int{0, 10, 40, 80}[g.Intn(4)]
	msg := func() int {
		m := gMsg{Verdict: "ok", Valid: true}
		switch n := g.Intn(10); {
		case n < 5:
			m.Type = "Req"
			for try := 0; ; try++ {
				m.Wire, m.Valid = gReq(g, 2)
				if m.Valid != g.P(bad) || try > 5 {
					break
				}
			}
		case n < 7:
			m.Type, m.Wire = "Plain", pbVarint(1, uint64(g.Intn(9)))
		case n < 8:
			id := uint64(5 + g.Intn(4))
			m.Type, m.Wire, m.Valid = "In", pbVarint(1, id), id != 7
		case n < 9:
			m.Type = "Off"
		default:
			m.Type = "Ign"
		}
		if g.P(bad) {
			m.Verdict = hexText(gText(g, 6)) + ":" + hexText(gText(g, 6)) + ":" + hexText(gText(g, 3))
			if g.P(10) {
				m.Verdict = "boom"
			}
		}
		s.Msgs = append(s.Msgs, m)
		return len(s.Msgs) - 1
	}
	seqs := make([][]gOp, s.Calls)
	total := 0
	for c := range seqs {
		add := func(op string, m int) { seqs[c] = append(seqs[c], gOp{c, op, m}) }
		n := g.Intn(7)
		if s.Kind == "server" {
			for i := 0; i < n; i++ {
				if g.P(20) {
					add("ready", 0)
				} else {
					add("msg", msg())
				}
			}
			if g.P(80) {
				add("half", 0)
				if g.P(20) {
					add("ready", 0)
				}
			}
			if g.P(70) {
				add([]string{"complete", "cancel"}[g.Intn(2)], 0)
			}
		} else {
			add("start", 0)
			for i := 0; i < n; i++ {
				switch g.Intn(8) {
				case 0:
					add("req", 1+g.Intn(4))
				case 1:
					add([]string{"ready", "comp", "reply"}[g.Intn(3)], 0)
				default:
					add("send", msg())
				}
			}
			if g.P(60) {
				add("half", 0)
				if g.P(50) {
					add("reply", 0)
				}
				if g.P(50) {
					add("closed", 0)
				}
			}
			if g.P(20) {
				add("cancel", 0)
			}
		}
		total += len(seqs[c])
	}
	for total > 0 {
		c := g.Intn(s.Calls)
		if len(seqs[c]) > 0 {
			s.Ops = append(s.Ops, seqs[c][0])
			seqs[c] = seqs[c][1:]
			total--
		}
	}
	return s
}

// wants gives what each call has to see. direct: what the validator says.
func (s *GScript) wants(direct []string) []string {
	tr := make([][]string, s.Calls)
	aborted := make([]bool, s.Calls)
	for c := range tr {
		if s.Kind == "server" {
			tr[c] = []string{"start there", "request 1"}
		} else {
			tr[c] = []string{fmt.Sprintf("call m%d auth%d", c, c)}
		}
	}
	status := func(i int) string {
		p := strings.Split(direct[i], ":")
		return fmt.Sprintf("INVALID_ARGUMENT %s 3 %s %s:%s", p[3], p[3], p[0], p[1])
	}
	for _, o := range s.Ops {
		c := o.Call
		t := func(x ...string) { tr[c] = append(tr[c], x...) }
		switch o.Op {
		case "msg", "send":
			i := o.Msg
			switch {
			case aborted[c]:
			case direct[i] == "boom":
				t("throws IllegalArgumentException boom")
			case direct[i] != "ok" && o.Op == "msg":
				aborted[c] = true
				t("close " + status(i))
			case direct[i] != "ok":
				p := strings.Split(direct[i], ":")
				t("throws " + status(i) + " " + hexText("INVALID_ARGUMENT: "+unhexText(p[3])))
			default:
				t(fmt.Sprintf("message %d", i))
				if o.Op == "msg" {
					t("request 1")
					if i%3 == 1 {
						t(fmt.Sprintf("reply r%d", i))
					}
					if i%5 == 4 {
						t(fmt.Sprintf("throws UnsupportedOperationException service %d", i))
					}
				}
			}
		case "half":
			switch {
			case s.Kind == "client":
				t("half")
			case !aborted[c]:
				t("half", "headers back", "close OK")
			}
		case "cancel":
			if s.Kind == "client" {
				t("cancel why because")
			} else {
				t("cancel")
			}
		case "complete":
			t("complete")
		case "ready":
			if s.Kind == "client" {
				t("ready?")
				t(fmt.Sprint(len(tr[c])%2 == 0))
			} else {
				t("ready")
			}
		case "start":
			t("start there")
		case "req":
			t(fmt.Sprintf("request %d", o.Msg))
		case "comp":
			t("compression true")
		case "reply":
			t("got r")
		case "closed":
			t("closed OK")
		}
	}
	out := make([]string, s.Calls)
	for c := range tr {
		out[c] = strings.Join(tr[c], "|")
	}
	return out
}

// bad says what is wrong with an answer.
func (s *GScript) bad(answer string) string {
	if strings.HasPrefix(answer, "E") {
		return fmt.Sprintf("%s: %s", s.show(), head(answer[1:], 600))
	}
	p := strings.Split(answer, "\t")
	got, direct := strings.Split(strings.TrimSuffix(p[0], ";"), ";"), strings.Split(strings.TrimSuffix(p[1], ";"), ";")
	for i := range s.Msgs {
		m := s.Msgs[i]
		want := "ok"
		switch {
		case s.Index == "script" && m.Verdict == "boom":
			want = "boom"
		case s.Index == "script" && m.Verdict != "ok":
			q := strings.Split(m.Verdict, ":")
			want = m.Verdict + ":" + hexText(unhexText(q[0])+": "+unhexText(q[1])+" - Got "+unhexText(q[2]))
		case !s.ok(i):
			if direct[i] == "ok" || direct[i] == "boom" {
				return fmt.Sprintf("%s: the index accepts message %d", s.show(), i)
			}
			continue
		}
		if direct[i] != want {
			return fmt.Sprintf("%s: the index says %s of message %d, want %s", s.show(), gPlain(direct[i]), i, gPlain(want))
		}
	}
	for c, w := range s.wants(direct) {
		if got[c] != w {
			return fmt.Sprintf("%s: call %d sees\n  %s\nwant\n  %s", s.show(), c, gPlain(got[c]), gPlain(w))
		}
	}
	return ""
}

// gPlain shows the texts in a trace.
func gPlain(t string) string {
	f := func(w string) string {
		if len(w) > 2 && w[0] == 'x' {
			if b, err := hex.DecodeString(w[1:]); err == nil {
				return fmt.Sprintf("%q", b)
			}
		}
		return w
	}
	var ev []string
	for _, e := range strings.Split(t, "|") {
		ws := strings.Split(e, " ")
		for i, w := range ws {
			q := strings.Split(w, ":")
			for j := range q {
				q[j] = f(q[j])
			}
			ws[i] = strings.Join(q, ":")
		}
		ev = append(ev, strings.Join(ws, " "))
	}
	return strings.Join(ev, " | ")
}

func (e *Env) grpcRun(l []*GScript, id string) ([]string, string) {
	fi, fo := filepath.Join(e.Tmp, "grpc-in-"+id), filepath.Join(e.Tmp, "grpc-out-"+id)
	var b strings.Builder
	for _, s := range l {
		b.WriteString(s.line() + "\n")
	}
	must(os.WriteFile(fi, []byte(b.String()), 0o644), "write")
	os.Remove(fo)
	defer os.Remove(fi)
	defer os.Remove(fo)
	return readAnswers(fo, run(e.Tmp, nil, 10*time.Minute, nil, "java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-cp", e.grpcLib(), "Grpc", fi, fo))
}

// grpcShrink leaves out steps and calls as long as the script fails.
func (e *Env) grpcShrink(s *GScript) *GScript {
	for round := 0; round < 30; round++ {
		var l []*GScript
		add := func(f func(*GScript)) {
			t := *s
			t.Ops = append([]gOp(nil), s.Ops...)
			f(&t)
			l = append(l, &t)
		}
		for c := 0; c < s.Calls && s.Calls > 1; c++ {
			add(func(t *GScript) {
				ops := t.Ops[:0]
				for _, o := range t.Ops {
					if o.Call != c {
						if o.Call > c {
							o.Call--
						}
						ops = append(ops, o)
					}
				}
				t.Ops, t.Calls = ops, t.Calls-1
			})
		}
		for i := range s.Ops {
			if s.Ops[i].Op != "start" {
				add(func(t *GScript) { t.Ops = append(t.Ops[:i], t.Ops[i+1:]...) })
			}
		}
		if s.Par {
			add(func(t *GScript) { t.Par = false })
		}
		if len(l) == 0 {
			break
		}
		got, died := e.grpcRun(l, "shrink")
		next := (*GScript)(nil)
		for i, t := range l {
			if i < len(got) && t.bad(got[i]) != "" || i == len(got) && died != "" {
				next = t
				break
			}
		}
		if next == nil {
			break
		}
		s = next
	}
	return s
}

func grpcCheck(e *Env, r *Report) {
	r.Rule = "A case is one script of steps of up to four gRPC calls through one interceptor, whose traces are compared with the model's. It is non-trivial if a message is sent, and distinct by its text."
	r.Assumptions = []string{"the stand-ins in harness/java/grpcstub for gRPC: a call records what reaches it and refuses to be closed twice, and those for protobuf-java"}
	e.grpcLib()
	per := e.pick(4000, 60000)
	const chunk = 2000
	var mu sync.Mutex
	seen := map[uint64]bool{}
	parallel(8, func(lot int) {
		g := pv.NewG(e.Seed*100043 + int64(lot))
		for done := 0; done < per; done += chunk {
			var l []*GScript
			for len(l) < chunk {
				l = append(l, gScript(g))
			}
			got, died := e.grpcRun(l, fmt.Sprint(lot))
			if died == "" && len(got) != len(l) {
				panic(broken{fmt.Errorf("%d answers to %d scripts", len(got), len(l))})
			}
			var fail *GScript
			for i := range got {
				if l[i].bad(got[i]) != "" && (fail == nil || len(l[i].Ops) < len(fail.Ops)) {
					fail = l[i]
				}
			}
			if died != "" && len(got) < len(l) {
				fail = l[len(got)]
			}
			mu.Lock()
			r.Evaluations += len(got)
			for i := range got {
				s := l[i]
				r.count("interceptor", s.Kind, 1)
				r.count("index", s.Index, 1)
				n, bad := 0, 0
				for _, o := range s.Ops {
					if o.Op == "msg" || o.Op == "send" {
						n++
						if !s.ok(o.Msg) {
							bad++
						}
					}
				}
				r.count("invalid messages in the script", []string{"none", "one", "more"}[min(bad, 2)], 1)
				if n == 0 {
					continue
				}
				h := fnv.New64a()
				h.Write([]byte(s.line()))
				if k := h.Sum64(); !seen[k] {
					seen[k] = true
					r.Distinct++
					if len(seen)%3001 == 17 {
						r.sample(s.show())
					}
				}
			}
			if fail != nil && len(r.Viols) < 2 {
				fail = e.grpcShrink(fail)
				got, died := e.grpcRun([]*GScript{fail}, "again")
				d := fail.show() + ": " + died
				if len(got) == 1 {
					d = fail.bad(got[0])
				}
				r.fail(&Replay{Kind: "grpc", Detail: d, Args: []string{toJSON(fail)}})
			}
			stop := len(r.Viols) > 0
			mu.Unlock()
			if stop {
				return
			}
		}
	})
}

func init() {
	replayers["grpc"] = func(e *Env, v *Replay) string {
		s := &GScript{}
		must(json.Unmarshal([]byte(v.Args[0]), s), "replay")
		got, died := e.grpcRun([]*GScript{s}, "replay")
		if died != "" || len(got) != 1 {
			return s.show() + ": " + died
		}
		return s.bad(got[0])
	}
}
