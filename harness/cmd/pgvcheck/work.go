package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/pv"
)

// Env is what every check works with.
type Env struct {
	Repo, Verif string
	Tmp         string // scratch directory, removed at the end
	Tier        string
	Seed        int64
	plugin      string
	genGo       string
	n           int64
}

func (e *Env) thorough() bool { return e.Tier == "thorough" }

// verbose is for development.
func (e *Env) verbose() bool { return os.Getenv("PGV_VERBOSE") != "" }

// pick is q on the quick tier and t on the thorough one.
func (e *Env) pick(q, t int) int {
	if e.thorough() {
		return t
	}
	return q
}

// broken is an error of the check itself, never a verdict.
type broken struct{ error }

func must(err error, what string) {
	if err != nil {
		panic(broken{fmt.Errorf("%s: %w", what, err)})
	}
}

type out struct {
	stdout, stderr string
	code           int
	timeout        bool
}

func (o out) both() string { return o.stdout + o.stderr }

// run runs a command. Only failing to start it is an error of the check.
func run(dir string, env []string, limit time.Duration, stdin []byte, name string, args ...string) out {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, name, args...)
	c.Dir = dir
	c.Env = append(os.Environ(), env...)
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	if stdin != nil {
		c.Stdin = bytes.NewReader(stdin)
	}
	err := c.Run()
	o := out{stdout: so.String(), stderr: se.String()}
	if ctx.Err() != nil {
		o.timeout = true
		o.code = -1
		return o
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			o.code = ee.ExitCode()
			if o.code == 0 {
				o.code = -2
			}
		} else {
			panic(broken{fmt.Errorf("%s: %w", name, err)})
		}
	}
	return o
}

// buildPlugin builds the plugin and protoc-gen-go from the working tree.
func (e *Env) buildPlugin() {
	bin := filepath.Join(e.Tmp, "bin")
	must(os.MkdirAll(bin, 0o755), "mkdir")
	e.plugin = filepath.Join(bin, "protoc-gen-validate")
	e.genGo = filepath.Join(bin, "protoc-gen-go")
	ro := []string{"GOFLAGS=-mod=readonly", "GOBIN="}
	o := run(e.Repo, ro, 10*time.Minute, nil, "go", "build", "-buildvcs=false", "-o", e.plugin, ".")
	if o.code != 0 {
		panic(broken{fmt.Errorf("building the plugin: %s", o.both())})
	}
	o = run(e.Repo, ro, 10*time.Minute, nil, "go", "build", "-buildvcs=false", "-o", e.genGo, "google.golang.org/protobuf/cmd/protoc-gen-go")
	if o.code != 0 {
		panic(broken{fmt.Errorf("building protoc-gen-go: %s", o.both())})
	}
}

// W is a workspace: a Go module "verifgen" that generated code lives in.
type W struct {
	e   *Env
	dir string
}

func (e *Env) newW(name string) *W {
	w := &W{e: e, dir: filepath.Join(e.Tmp, fmt.Sprintf("w%d-%s", atomic.AddInt64(&e.n, 1), name))}
	must(os.MkdirAll(w.dir, 0o755), "mkdir")
	return w
}

func (w *W) remove() { os.RemoveAll(w.dir) }

func (w *W) write(name, text string) {
	p := filepath.Join(w.dir, name)
	must(os.MkdirAll(filepath.Dir(p), 0o755), "mkdir")
	must(os.WriteFile(p, []byte(text), 0o644), "write")
}

func (w *W) goMod() {
	w.write("go.mod", fmt.Sprintf(`module verifgen

go 1.18

require (
	github.com/envoyproxy/protoc-gen-validate v0.0.0
	google.golang.org/protobuf v1.26.0
	verif/harness v0.0.0
)

replace github.com/envoyproxy/protoc-gen-validate => %s

replace verif/harness => %s/harness
`, w.e.Repo, w.e.Verif))
	b, err := os.ReadFile(filepath.Join(w.e.Verif, "harness/go.sum"))
	must(err, "go.sum")
	w.write("go.sum", string(b))
}

// parallel runs f(0..n-1) on all cores.
func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	var pmu sync.Mutex
	var pan interface{}
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				func() {
					defer func() {
						if r := recover(); r != nil {
							pmu.Lock()
							pan = r
							pmu.Unlock()
						}
					}()
					f(i)
				}()
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
	if pan != nil {
		panic(pan)
	}
}

// genErr says at which stage a file was refused.
type genErr struct {
	File  string
	Stage string // protoc, plugin, compile
	Text  string
}

// protoc runs protoc on one file of the workspace; it returns nil if it was
// accepted. lang is go, cc or java.
func (w *W) protoc(file, lang, extra string) *genErr {
	args := []string{"-I", w.dir, "-I", w.e.Repo,
		"--plugin=protoc-gen-validate=" + w.e.plugin,
	}
	switch lang {
	case "go":
		args = append(args, "--plugin=protoc-gen-go="+w.e.genGo,
			"--go_out=paths=source_relative:"+w.dir, "--validate_out=lang=go,paths=source_relative"+extra+":"+w.dir)
	case "cc":
		args = append(args, "--cpp_out="+w.dir, "--validate_out=lang=cc"+extra+":"+w.dir)
	default:
		args = append(args, "--validate_out=lang="+lang+extra+":"+w.dir)
	}
	o := run(w.dir, nil, 3*time.Minute, nil, "protoc", append(args, file)...)
	if o.timeout {
		panic(broken{fmt.Errorf("protoc timed out on %s", file)})
	}
	if o.code == 0 {
		return nil
	}
	st := "protoc"
	if strings.Contains(o.both(), "validate_out") || strings.Contains(o.both(), "protoc-gen-validate") {
		st = "plugin"
	}
	return &genErr{File: file, Stage: st, Text: tail(o.both(), 3000)}
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// writeProtos puts the schema into the workspace.
func (w *W) writeProtos(s *pv.Schema) {
	for _, f := range s.Files {
		w.write(f.Name, f.Text())
	}
	b, err := json.Marshal(s)
	must(err, "schema")
	w.write("schema.json", string(b))
}

// generate runs protoc and the plugin on every file.
func (w *W) generate(s *pv.Schema, lang string) []*genErr {
	errs := make([]*genErr, len(s.Files))
	parallel(len(s.Files), func(i int) { errs[i] = w.protoc(s.Files[i].Name, lang, "") })
	var out []*genErr
	for _, e := range errs {
		if e != nil {
			out = append(out, e)
		}
	}
	return out
}

var pkgLine = regexp.MustCompile(`(?m)^# verifgen/(\S+)`)

// compileAll compiles the generated packages and reports those that fail.
func (w *W) compileAll() []*genErr {
	o := run(w.dir, nil, 15*time.Minute, nil, "go", "build", "-gcflags=-e", "./...")
	if o.timeout {
		panic(broken{fmt.Errorf("go build timed out")})
	}
	if o.code == 0 {
		return nil
	}
	txt := o.both()
	idx := pkgLine.FindAllStringSubmatchIndex(txt, -1)
	if len(idx) == 0 {
		// e.g. syntax errors are listed without a package line
		return []*genErr{{Stage: "compile", Text: head(txt, 3000)}}
	}
	var l []*genErr
	for i, m := range idx {
		end := len(txt)
		if i+1 < len(idx) {
			end = idx[i+1][0]
		}
		l = append(l, &genErr{File: txt[m[2]:m[3]], Stage: "compile", Text: head(txt[m[0]:end], 3000)})
	}
	return l
}

func (w *W) writeMain(s *pv.Schema) {
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"verif/harness/pv\"\n")
	for _, f := range s.Files {
		fmt.Fprintf(&b, "\t_ %q\n", f.GoPkg)
	}
	b.WriteString(")\n\nfunc main() { pv.DriverMain() }\n")
	w.write("main.go", b.String())
}

func (w *W) buildDriver() *genErr {
	o := run(w.dir, nil, 15*time.Minute, nil, "go", "build", "-gcflags=-e", "-o", "driver", ".")
	if o.timeout {
		panic(broken{fmt.Errorf("go build timed out")})
	}
	if o.code != 0 {
		return &genErr{Stage: "compile", Text: head(o.both(), 6000)}
	}
	return nil
}

// drive runs the driver.
func (w *W) drive(args ...string) *pv.Result {
	res := filepath.Join(w.dir, "result.json")
	os.Remove(res)
	a := append([]string{"-schema", filepath.Join(w.dir, "schema.json"), "-out", res}, args...)
	o := run(w.dir, nil, 30*time.Minute, nil, filepath.Join(w.dir, "driver"), a...)
	b, err := os.ReadFile(res)
	if err != nil {
		if o.timeout {
			panic(broken{fmt.Errorf("the driver timed out")})
		}
		// the whole process died: a fatal error no recover can catch
		return &pv.Result{Failures: []pv.Failure{{Kind: "crash", Detail: tail(o.both(), 3000)}}}
	}
	var r pv.Result
	must(json.Unmarshal(b, &r), "result")
	return &r
}

// ---- subsets of a schema -------------------------------------------------

// subset keeps only what message full (in file fi) needs, plus the files it
// imports.
func subset(s *pv.Schema, full string) *pv.Schema {
	var fi *pv.File
	for _, f := range s.Files {
		if strings.HasPrefix(full, f.Pkg+".") {
			fi = f
		}
	}
	if fi == nil {
		return s
	}
	out := &pv.Schema{}
	need := map[string]bool{}
	var walk func(f *pv.File)
	walk = func(f *pv.File) {
		if need[f.Name] {
			return
		}
		need[f.Name] = true
		for _, i := range f.Imports {
			for _, g := range s.Files {
				if g.Name == i {
					walk(g)
				}
			}
		}
	}
	walk(fi)
	for _, f := range s.Files {
		if !need[f.Name] {
			continue
		}
		if f != fi {
			out.Files = append(out.Files, f)
			continue
		}
		c := *f
		top := strings.SplitN(strings.TrimPrefix(full, f.Pkg+"."), ".", 2)[0]
		keep := map[string]bool{}
		var mark func(name string)
		mark = func(name string) {
			if keep[name] {
				return
			}
			for _, m := range f.Msgs {
				if m.Name != name {
					continue
				}
				keep[name] = true
				var rec func(m *pv.Msg)
				rec = func(m *pv.Msg) {
					for _, fl := range m.Fields {
						if t := strings.TrimPrefix(fl.TypeName, f.Pkg+"."); t != fl.TypeName {
							mark(strings.SplitN(t, ".", 2)[0])
						}
					}
					for _, n := range m.Msgs {
						rec(n)
					}
				}
				rec(m)
			}
		}
		mark(top)
		for _, m := range f.Msgs {
			// what other files refer to stays
			if m.Tag == "" {
				mark(m.Name)
			}
		}
		c.Msgs = nil
		for _, m := range f.Msgs {
			if keep[m.Name] {
				c.Msgs = append(c.Msgs, m)
			}
		}
		out.Files = append(out.Files, &c)
	}
	return out
}

func cloneSchema(s *pv.Schema) *pv.Schema {
	b, err := json.Marshal(s)
	must(err, "clone")
	var c pv.Schema
	must(json.Unmarshal(b, &c), "clone")
	return &c
}

// goGenOne generates and compiles a small schema in a fresh workspace.
func (e *Env) goGenOne(s *pv.Schema) *genErr {
	w := e.newW("one")
	defer w.remove()
	w.goMod()
	w.writeProtos(s)
	if l := w.generate(s, "go"); len(l) > 0 {
		return l[0]
	}
	if l := w.compileAll(); len(l) > 0 {
		return l[0]
	}
	return nil
}

// isolate finds one message of the failing files that fails on its own, and
// makes it smaller.
func (e *Env) isolate(s *pv.Schema, bad []*genErr, gen func(*pv.Schema) *genErr) (*pv.Schema, string, *genErr) {
	isBad := map[string]bool{}
	for _, b := range bad {
		isBad[strings.SplitN(b.File, "/", 2)[0]] = true
	}
	var cand []string
	for _, f := range s.Files {
		if len(bad) > 0 && bad[0].File != "" && !isBad[strings.SplitN(f.Name, "/", 2)[0]] {
			continue
		}
		for _, m := range f.Msgs {
			if m.Tag != "" {
				cand = append(cand, f.Pkg+"."+m.Name)
			}
		}
	}
	if len(cand) > 200 {
		cand = cand[:200]
	}
	errs := make([]*genErr, len(cand))
	var mu sync.Mutex
	parallel(len(cand), func(i int) {
		mu.Lock()
		done := false
		for j := 0; j < i; j++ {
			done = done || errs[j] != nil
		}
		mu.Unlock()
		if done {
			return
		}
		g := gen(subset(s, cand[i]))
		mu.Lock()
		errs[i] = g
		mu.Unlock()
	})
	for i, g := range errs {
		if g == nil {
			continue
		}
		sub, g := e.shrinkGen(subset(s, cand[i]), cand[i], g, gen)
		return sub, cand[i], g
	}
	return s, "", bad[0]
}

// shrinkGen drops fields while the generation keeps failing at the same stage.
func (e *Env) shrinkGen(s *pv.Schema, full string, g *genErr, gen func(*pv.Schema) *genErr) (*pv.Schema, *genErr) {
	for tries := 0; tries < 25; {
		reg := pv.NewReg(s)
		m := reg.Msgs[full]
		if m == nil {
			return s, g
		}
		again := false
		for i := range m.Fields {
			if len(m.Fields) == 1 || tries >= 25 {
				break
			}
			c := cloneSchema(s)
			cm := pv.NewReg(c).Msgs[full]
			o := cm.Fields[i].Oneof
			cm.Fields = append(cm.Fields[:i:i], cm.Fields[i+1:]...)
			empty := o > 0
			for _, f := range cm.Fields {
				empty = empty && f.Oneof != o
			}
			if empty {
				continue // an empty oneof is no proto
			}
			tries++
			if h := gen(c); h != nil && h.Stage == g.Stage {
				s, g, again = c, h, true
				break
			}
		}
		if !again {
			break
		}
	}
	return s, g
}

func sortedKeys(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
