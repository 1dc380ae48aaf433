package main

import (
	"bufio"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/harness/pv"
)

// The C++ back end: the messages are generated and judged by the Go driver,
// and given to a program made of the generated C++ code.

var cxxFlags = []string{"-std=c++14", "-O0", "-w"}

func (e *Env) gxx(dir string, args ...string) *genErr {
	o := run(dir, nil, 10*time.Minute, nil, "g++", append(append([]string{}, cxxFlags...), args...)...)
	if o.timeout {
		panic(broken{fmt.Errorf("g++ timed out")})
	}
	if o.code != 0 {
		if strings.Contains(o.both(), "Killed signal") || strings.Contains(o.both(), "out of memory") {
			panic(broken{fmt.Errorf("g++: %s", tail(o.both(), 500))})
		}
		return &genErr{Stage: "compile", Text: head(o.both(), 4000)}
	}
	return nil
}

var ccOnce sync.Once
var ccBase string

// ccLib compiles what every C++ workspace needs, once: validate.pb.cc and the
// main program.
func (e *Env) ccLib() string {
	ccOnce.Do(func() {
		ccBase = filepath.Join(e.Tmp, "ccbase")
		must(os.MkdirAll(ccBase, 0o755), "mkdir")
		o := run(ccBase, nil, time.Minute, nil, "protoc", "-I", e.Repo, "--cpp_out="+ccBase, "validate/validate.proto")
		if o.code != 0 {
			panic(broken{fmt.Errorf("protoc: %s", o.both())})
		}
		parallel(2, func(i int) {
			if i == 0 {
				if g := e.gxx(ccBase, "-I", ccBase, "-c", "validate/validate.pb.cc", "-o", "validate.o"); g != nil {
					panic(broken{fmt.Errorf("validate.pb.cc: %s", g.Text)})
				}
				return
			}
			if g := e.gxx(ccBase, "-I", e.Repo, "-c", filepath.Join(e.Verif, "harness/cc/run.cc"), "-o", "run.o"); g != nil {
				panic(broken{fmt.Errorf("run.cc: %s", g.Text)})
			}
		})
	})
	return ccBase
}

func (w *W) ccInclude() []string {
	return []string{"-I", w.dir, "-I", w.e.ccLib(), "-I", w.e.Repo, "-I", filepath.Join(w.e.Verif, "harness/cc")}
}

var unitMacro = regexp.MustCompile(`(?m)^(X_\S*?)\(PGV_REGISTER\)`)
var xMacro = regexp.MustCompile(`(?m)^#define (X_\S*?)\(\w+\)`)

// ccUnit writes the translation unit of a file: the generated validators and
// their registration.
func (w *W) ccUnit(file string) string {
	base := strings.TrimSuffix(file, ".proto")
	h, err := os.ReadFile(filepath.Join(w.dir, base+".pb.validate.h"))
	if err != nil {
		return ""
	}
	m := xMacro.FindStringSubmatch(string(h))
	if m == nil {
		return ""
	}
	w.write(base+".unit.cc", fmt.Sprintf("#include %q\n#include \"run.h\"\n%s(PGV_REGISTER)\n", base+".pb.validate.cc", m[1]))
	return base + ".unit.cc"
}

// buildCC compiles and links the C++ code of the files.
func (w *W) buildCC(s *pv.Schema) []*genErr {
	base := w.e.ccLib()
	type job struct{ src, obj, file string }
	var jobs []job
	var objs []string
	for _, f := range s.Files {
		b := strings.TrimSuffix(f.Name, ".proto")
		u := w.ccUnit(f.Name)
		if u == "" {
			return []*genErr{{File: f.Name, Stage: "compile", Text: "no header of validators, or one without its X_ macro"}}
		}
		jobs = append(jobs, job{b + ".pb.cc", b + ".pb.o", f.Name}, job{u, b + ".unit.o", f.Name})
		objs = append(objs, b+".pb.o", b+".unit.o")
	}
	errs := make([]*genErr, len(jobs))
	inc := w.ccInclude()
	parallel(len(jobs), func(i int) {
		errs[i] = w.e.gxx(w.dir, append(append([]string{}, inc...), "-c", jobs[i].src, "-o", jobs[i].obj)...)
	})
	var bad []*genErr
	for i, g := range errs {
		if g == nil {
			continue
		}
		g.File = jobs[i].file
		if strings.HasSuffix(jobs[i].src, ".pb.cc") {
			panic(broken{fmt.Errorf("protoc's own C++ code does not compile: %s", g.Text)})
		}
		bad = append(bad, g)
	}
	if len(bad) > 0 {
		return bad
	}
	args := append(append([]string{"-o", "ccrun"}, objs...), filepath.Join(base, "validate.o"), filepath.Join(base, "run.o"), "-lprotobuf", "-lre2", "-lpthread")
	if g := w.e.gxx(w.dir, args...); g != nil {
		g.Stage = "link"
		return []*genErr{g}
	}
	return nil
}

// ccGenOne generates and compiles a small schema in a fresh workspace.
func (e *Env) ccGenOne(s *pv.Schema) *genErr {
	w := e.newW("ccone")
	defer w.remove()
	w.writeProtos(s)
	if l := w.generate(s, "cc"); len(l) > 0 {
		return l[0]
	}
	for _, f := range s.Files {
		u := w.ccUnit(f.Name)
		if u == "" {
			return &genErr{File: f.Name, Stage: "compile", Text: "no header of validators, or one without its X_ macro"}
		}
		if g := e.gxx(w.dir, append(w.ccInclude(), "-fsyntax-only", u)...); g != nil {
			g.File = f.Name
			return g
		}
	}
	return nil
}

// ccCase is one line of a dump.
type ccCase struct {
	pv.Case
	want         int
	names, viols string
	text         string
}

func readDump(path string) []ccCase {
	f, err := os.Open(path)
	must(err, "dump")
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 64<<20)
	var out []ccCase
	for sc.Scan() {
		p := strings.Split(sc.Text(), "\t")
		c := ccCase{Case: pv.Case{Msg: p[0], Wire: p[1]}, names: p[3], viols: p[4]}
		c.want, err = strconv.Atoi(p[2])
		must(err, "dump")
		if len(p) > 5 {
			c.text = p[5]
		}
		out = append(out, c)
	}
	must(sc.Err(), "dump")
	return out
}

// foreign is a program that validates the cases of a dump.
type foreign func(w *W, dump string) (lines []string, died string)

func ccForeign(w *W, dump string) ([]string, string) {
	res := dump + ".out"
	os.Remove(res)
	o := run(w.dir, nil, 10*time.Minute, nil, filepath.Join(w.dir, "ccrun"), dump, res)
	return readAnswers(res, o)
}

func readAnswers(res string, o out) ([]string, string) {
	b, _ := os.ReadFile(res)
	var lines []string
	if len(b) > 0 {
		lines = strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
	}
	switch {
	case o.timeout:
		return lines, "it does not come back"
	case o.code != 0:
		return lines, "it dies: " + tail(o.both(), 1000)
	}
	return lines, ""
}

func allowed(want int) string {
	var l []string
	for i, s := range []string{"true", "false", "a refusal"} {
		if want&(1<<i) != 0 {
			l = append(l, s)
		}
	}
	return strings.Join(l, " or ")
}

// judge compares an answer with what the rules allow.
func (be *backEnd) judge(c *ccCase, line string) string {
	switch {
	case line == "M":
		return be.missing
	case line[0] == 'P':
		return "" // not a message the language can parse
	}
	for i, a := range strings.Split(line, "\t") {
		who := be.who[i]
		b, err := hex.DecodeString(a[2:])
		must(err, "answer")
		txt := string(b)
		got := map[byte]int{'T': pv.WantTrue, 'F': pv.WantFalse, 'U': pv.WantThrow}[a[0]]
		name := map[byte]string{'T': "accepts", 'F': "rejects", 'U': "refuses", 'E': "throws another exception on"}[a[0]]
		if got&c.want == 0 {
			return fmt.Sprintf("%s %s the message (%q), the rules want %s: violations [%s]", who, name, txt, allowed(c.want), c.viols)
		}
		switch a[0] {
		case 'T':
			if txt != "" {
				return fmt.Sprintf("%s accepts the message and yet sets the error text %q", who, txt)
			}
		case 'F':
			if txt == "" {
				return who + " rejects the message without an error text"
			}
			hit := false
			for _, n := range strings.Split(c.names, ",") {
				hit = hit || strings.Contains(txt, n)
			}
			if !hit {
				return fmt.Sprintf("%s rejects the message with %q, which names none of the fields that break rules: %s", who, txt, c.names)
			}
		}
	}
	return ""
}

// foreignCheck runs schemas through a back end outside of Go.
type backEnd struct {
	lang    string // of the plugin
	kind    string // of the replays
	flags   []string
	build   func(w *W, s *pv.Schema) []*genErr
	genOne  func(e *Env, s *pv.Schema) *genErr
	foreign foreign
	who     []string // what gives the answers
	missing string
}

var ccBack = backEnd{lang: "cc", kind: "cc", flags: []string{"-cc"},
	build:   func(w *W, s *pv.Schema) []*genErr { return w.buildCC(s) },
	genOne:  (*Env).ccGenOne,
	foreign: ccForeign,
	who:     []string{"Validate", "CheckMessage"},
	missing: "the X_ macro of the header does not list the message"}

// prepare generates and compiles Go and the other language.
func (be *backEnd) prepare(e *Env, r *Report, w *W, s *pv.Schema) bool {
	w.goMod()
	w.writeProtos(s)
	var bad []*genErr
	if be.lang == "cc" {
		bad = w.generate(s, be.lang)
	}
	if len(bad) == 0 {
		var gobad []*genErr
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			if gobad = w.generatePB(s); len(gobad) > 0 {
				return
			}
			w.writeMain(s)
			if g := w.buildDriver(); g != nil {
				gobad = []*genErr{g}
			}
		}()
		bad = be.build(w, s)
		wg.Wait()
		if len(gobad) > 0 {
			panic(broken{fmt.Errorf("the Go driver does not build: %s %s", gobad[0].Stage, gobad[0].Text)})
		}
	}
	if len(bad) > 0 {
		sub, full, g := e.isolate(s, bad, func(s *pv.Schema) *genErr { return be.genOne(e, s) })
		v := &Replay{Kind: be.kind + "-gen", Detail: fmt.Sprintf("no %s code that compiles for %s (%s): %s", be.lang, full, g.Stage, head(g.Text, 1500)), Schema: sub}
		if m := pv.NewReg(sub).Msgs[full]; m != nil {
			v.Rules = m.Text()
		}
		r.fail(v)
		return false
	}
	return true
}

// generatePB makes the Go messages, without validators.
func (w *W) generatePB(s *pv.Schema) []*genErr {
	errs := make([]*genErr, len(s.Files))
	parallel(len(s.Files), func(i int) {
		o := run(w.dir, nil, 3*time.Minute, nil, "protoc", "-I", w.dir, "-I", w.e.Repo, "--plugin=protoc-gen-go="+w.e.genGo,
			"--go_out=paths=source_relative:"+w.dir, s.Files[i].Name)
		if o.code != 0 {
			errs[i] = &genErr{File: s.Files[i].Name, Stage: "protoc", Text: o.both()}
		}
	})
	var out []*genErr
	for _, g := range errs {
		if g != nil {
			out = append(out, g)
		}
	}
	return out
}

func (be *backEnd) round(e *Env, r *Report, s *pv.Schema, seed int64, per int) {
	w := e.newW(be.kind)
	defer w.remove()
	r.count("generated", "proto files", len(s.Files))
	if !be.prepare(e, r, w, s) {
		return
	}
	dump := filepath.Join(w.dir, "cases.txt")
	res := w.drive(append([]string{"-dump", dump, "-seed", fmt.Sprint(seed), "-per", fmt.Sprint(per)}, be.flags...)...)
	if len(res.Failures) > 0 {
		panic(broken{fmt.Errorf("the Go driver: %s", res.Failures[0].Detail)})
	}
	merge(r, &res.Stats)
	cases := readDump(dump)
	lines, died := be.foreign(w, dump)
	failed := map[string]bool{}
	unparsed, why := 0, ""
	for _, l := range lines {
		if strings.HasPrefix(l, "P") {
			unparsed, why = unparsed+1, l
		}
	}
	if unparsed > 0 {
		panic(broken{fmt.Errorf("the %s program cannot parse %d of %d messages: %s", be.lang, unparsed, len(cases), why)})
	}
	for i := range cases {
		c := &cases[i]
		what := ""
		switch {
		case i < len(lines):
			if lines[i] != "" {
				r.count("answers", lines[i][:1], 1)
			}
			what = be.judge(c, lines[i])
		case i == len(lines) && died != "":
			what = "on this message " + died
		case i == len(lines):
			panic(broken{fmt.Errorf("the %s program stops after %d cases", be.lang, len(lines))})
		default:
			return
		}
		if what == "" || failed[c.Msg] || len(failed) >= 3 {
			continue
		}
		failed[c.Msg] = true
		small, what := be.shrink(w, *c, what)
		v := &Replay{Kind: be.kind + "-case", Detail: what, Text: small.text, Seed: seed, Case: &small.Case, Schema: subset(s, c.Msg)}
		if m := pv.NewReg(s).Msgs[c.Msg]; m != nil {
			v.Rules = m.Text()
		}
		r.fail(v)
	}
}

// smaller asks the Go driver for the case itself and the cases one step
// smaller.
func (be *backEnd) smaller(w *W, c pv.Case) (string, []ccCase) {
	w.write("case.json", toJSON(c))
	dump := filepath.Join(w.dir, "smaller.txt")
	os.Remove(dump)
	w.drive(append([]string{"-replay", filepath.Join(w.dir, "case.json"), "-dump", dump}, be.flags...)...)
	return dump, readDump(dump)
}

func (be *backEnd) shrink(w *W, c ccCase, what string) (ccCase, string) {
	for round := 0; round < 40; round++ {
		dump, cases := be.smaller(w, c.Case)
		if len(cases) == 0 {
			break
		}
		c.text = cases[0].text
		lines, died := be.foreign(w, dump)
		found := false
		for i := 1; i < len(cases) && i <= len(lines); i++ {
			s := ""
			if i < len(lines) {
				s = be.judge(&cases[i], lines[i])
			} else if died != "" {
				s = "on this message " + died
			}
			if s != "" {
				c, what, found = cases[i], s, true
				break
			}
		}
		if !found {
			break
		}
	}
	return c, what
}

func (be *backEnd) replay(e *Env, v *Replay) string {
	r := &Report{}
	w := e.newW("replay")
	defer w.remove()
	if !be.prepare(e, r, w, v.Schema) {
		return r.Viols[0].Detail
	}
	dump, cases := be.smaller(w, *v.Case)
	lines, died := be.foreign(w, dump)
	if len(lines) == 0 {
		return "on this message " + died
	}
	if s := be.judge(&cases[0], lines[0]); s != "" {
		return s + "\n    message: " + cases[0].text
	}
	return ""
}

func init() {
	be := &ccBack
	replayers["cc-case"] = be.replay
	replayers["cc-gen"] = func(e *Env, v *Replay) string {
		if g := e.ccGenOne(v.Schema); g != nil {
			return g.Stage + ": " + g.Text
		}
		return ""
	}
}

// ccModel compares generated C++ code with the reference.
func ccModel(schemas []string, q, t goSize) func(e *Env, r *Report) {
	return func(e *Env, r *Report) {
		sz := q
		if e.thorough() {
			sz = t
		}
		r.Rule = "A case is one generated message of one generated message type, judged by the generated C++ Validate, by CheckMessage, and by the reference interpreter. It is non-trivial if at least one field is set or one rule is violated, and distinct by type and wire bytes."
		for round := 0; round < sz.rounds; round++ {
			for i, name := range schemas {
				seed := e.Seed*1009 + int64(round)*31 + int64(i)
				s := pv.BuildCC(name, seed, sz.scale)
				ccBack.round(e, r, s, seed, sz.per)
				if len(r.Viols) > 0 {
					return
				}
			}
		}
	}
}
