package main

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
	"sync"

	"verif/harness/pv"
)

// goDirs maps the directories of a schema's Go packages to their files.
func goDirs(s *pv.Schema) map[string][]string {
	out := map[string][]string{}
	for _, f := range s.Files {
		d := filepath.Dir(f.Name)
		out[d] = append(out[d], f.Name)
	}
	return out
}

// genPb runs protoc-gen-go only; genPGV the plugin only, on all files of a
// Go package at once.
func (w *W) genPb(s *pv.Schema) *genErr {
	for _, fs := range goDirs(s) {
		o := run(w.dir, nil, 180e9, nil, "protoc", append([]string{"-I", w.dir, "-I", w.e.Repo, "--plugin=protoc-gen-go=" + w.e.genGo, "--go_out=paths=source_relative:" + w.dir}, fs...)...)
		if o.code != 0 {
			return &genErr{File: fs[0], Stage: "protoc", Text: o.both()}
		}
	}
	return nil
}

func (w *W) genPGV(s *pv.Schema) *genErr {
	for _, fs := range goDirs(s) {
		o := run(w.dir, nil, 180e9, nil, "protoc", append([]string{"-I", w.dir, "-I", w.e.Repo, "--plugin=protoc-gen-validate=" + w.e.plugin, "--validate_out=lang=go,paths=source_relative:" + w.dir}, fs...)...)
		if o.code != 0 {
			return &genErr{File: fs[0], Stage: "plugin", Text: o.both()}
		}
	}
	return nil
}

// api looks at a generated file: formatting, and the methods and types every
// message has to have.
func (w *W) api(f *pv.File) *genErr {
	name := strings.TrimSuffix(f.Name, ".proto") + ".pb.validate.go"
	bad := func(format string, a ...interface{}) *genErr {
		return &genErr{File: f.Name, Stage: "api", Text: fmt.Sprintf(format, a...)}
	}
	src, err := os.ReadFile(filepath.Join(w.dir, name))
	if err != nil {
		return bad("no file %s", name)
	}
	if out, err := format.Source(src); err != nil {
		return bad("%s: %v", name, err)
	} else if string(out) != string(src) {
		return bad("%s is not formatted as gofmt does", name)
	}
	parsed, err := parser.ParseFile(token.NewFileSet(), name, src, parser.ParseComments)
	if err != nil {
		return bad("%s: %v", name, err)
	}
	if !strings.HasPrefix(string(src), "// Code generated ") || !strings.Contains(strings.SplitN(string(src), "\n", 2)[0], "DO NOT EDIT.") {
		return bad("%s does not start with a generated-code line", name)
	}
	methods, types := map[string]map[string]bool{}, map[string]bool{}
	for _, d := range parsed.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil {
				continue
			}
			t := d.Recv.List[0].Type
			ptr := ""
			if st, ok := t.(*ast.StarExpr); ok {
				t, ptr = st.X, "*"
			}
			n := ptr + t.(*ast.Ident).Name
			if methods[n] == nil {
				methods[n] = map[string]bool{}
			}
			methods[n][d.Name.Name] = true
		case *ast.GenDecl:
			for _, sp := range d.Specs {
				if ts, ok := sp.(*ast.TypeSpec); ok {
					types[ts.Name.Name] = true
				}
			}
		}
	}
	want := 0
	var rec func(prefix string, m *pv.Msg) *genErr
	rec = func(prefix string, m *pv.Msg) *genErr {
		full := prefix + m.Name
		n := pv.GoName(full)
		if !m.Ignored {
			want++
			for _, x := range []string{"Validate", "ValidateAll"} {
				if !methods["*"+n][x] {
					return bad("*%s has no method %s", n, x)
				}
			}
			if !types[n+"ValidationError"] || !types[n+"MultiError"] {
				return bad("no type %sValidationError or %sMultiError", n, n)
			}
			for _, x := range []string{"Field", "Reason", "Cause", "Key", "ErrorName", "Error"} {
				if !methods[n+"ValidationError"][x] {
					return bad("%sValidationError has no method %s", n, x)
				}
			}
			for _, x := range []string{"AllErrors", "Error"} {
				if !methods[n+"MultiError"][x] {
					return bad("%sMultiError has no method %s", n, x)
				}
			}
		} else if methods["*"+n] != nil || types[n+"ValidationError"] {
			return bad("%s is ignored but has code", n)
		}
		for _, c := range m.Msgs {
			if g := rec(full+".", c); g != nil {
				return g
			}
		}
		return nil
	}
	for _, m := range f.Msgs {
		if g := rec("", m); g != nil {
			return g
		}
	}
	if got := len(types); got != 2*want {
		var l []string
		for t := range types {
			l = append(l, t)
		}
		sort.Strings(l)
		return bad("%d types for %d messages: %v", got, want, l)
	}
	return nil
}

// exoticOne generates and compiles one world; discard is true if it is no
// good without the plugin either.
func (e *Env) exoticOne(s *pv.Schema) (g *genErr, discard bool) {
	w := e.newW("ex1")
	defer w.remove()
	w.goMod()
	w.writeProtos(s)
	if g := w.genPb(s); g != nil {
		return g, true
	}
	if l := w.compileAll(); len(l) > 0 {
		return l[0], true
	}
	if g := w.genPGV(s); g != nil {
		return g, false
	}
	for _, f := range s.Files {
		if g := w.api(f); g != nil {
			return g, false
		}
	}
	if l := w.compileAll(); len(l) > 0 {
		return l[0], false
	}
	return nil, false
}

func (e *Env) shrinkWorld(s *pv.Schema, g *genErr) (*pv.Schema, *genErr) {
	return shrinkSchema(s, g, e.exoticOne)
}

func shrinkSchema(s *pv.Schema, g *genErr, one func(*pv.Schema) (*genErr, bool)) (*pv.Schema, *genErr) {
	try := func(c *pv.Schema) bool {
		h, discard := one(c)
		if h != nil && !discard && h.Stage == g.Stage {
			s, g = c, h
			return true
		}
		return false
	}
	end := time.Now().Add(90 * time.Second)
	for tries, again := 0, true; again && tries < 120; {
		again = false
		for k := 0; ; k++ {
			c := cloneSchema(s)
			if !pv.DropNth(c, k) {
				break
			}
			if tries++; tries > 120 || time.Now().After(end) {
				break
			}
			if try(c) {
				again = true
				k--
			}
		}
	}
	return s, g
}

func exoticCheck(e *Env, r *Report) {
	r.Rule = "A case is one set of .proto files of one to three Go packages with unusual names and structure, generated, formatted, compiled and driven with messages of every type. It is non-trivial if protoc-gen-go's own code of it compiles (the others are discarded); distinct by the text of its files."
	rounds := e.pick(1, 10)
	per := e.pick(120, 160)
	seen := map[string]bool{}
	for round := 0; round < rounds && len(r.Viols) == 0; round++ {
		e.exoticRound(r, seen, round, per)
	}
	r.Distinct = len(seen)
}

func (e *Env) exoticRound(r *Report, seen map[string]bool, round, n int) {
	w := e.newW("exotic")
	defer w.remove()
	w.goMod()
	worlds := make([]*pv.World, n)
	var mu sync.Mutex
	fails := map[int]*genErr{}
	drop := func(i int, why string) {
		os.RemoveAll(filepath.Join(w.dir, worlds[i].Dir))
		worlds[i] = nil
		r.count("discarded", why, 1)
	}
	parallel(n, func(i int) {
		seed := e.Seed*1000003 + int64(round*n+i)
		x := pv.NewWorld(seed, i)
		for _, f := range x.Schema.Files {
			w.write(f.Name, f.Text())
		}
		g := w.genPb(x.Schema)
		mu.Lock()
		worlds[i] = x
		if g != nil {
			if e.verbose() {
				fmt.Println("discarded:", g.Text)
			}
			drop(i, "refused by protoc or protoc-gen-go")
		}
		mu.Unlock()
	})
	// what does not compile without the plugin
	for _, g := range w.compileAll() {
		for i, x := range worlds {
			if x != nil && strings.HasPrefix(g.File+"/", x.Dir+"/") {
				if e.verbose() {
					fmt.Println("discarded:", g.Text)
				}
				drop(i, "protoc-gen-go's code does not compile")
			}
		}
	}
	parallel(n, func(i int) {
		x := worlds[i]
		if x == nil {
			return
		}
		g := w.genPGV(x.Schema)
		for _, f := range x.Schema.Files {
			if g == nil {
				g = w.api(f)
			}
		}
		if g != nil {
			mu.Lock()
			fails[i] = g
			mu.Unlock()
		}
	})
	all := &pv.Schema{}
	for i, x := range worlds {
		if x == nil {
			continue
		}
		r.Evaluations++
		txt := ""
		for _, f := range x.Schema.Files {
			txt += f.Text()
			r.count("files", f.Syntax, 1)
			f.EachMsg(func(m *pv.Msg) { r.count("generated", "message types", 1) })
		}
		if i%(n/4) == 3 {
			r.sample(fmt.Sprintf("%d files, e.g. %s: %s", len(x.Schema.Files), x.Schema.Files[0].Name, x.Schema.Files[0].Text()))
		}
		seen[txt] = true
		if fails[i] == nil {
			all.Files = append(all.Files, x.Schema.Files...)
		}
	}
	if l := w.compileAll(); len(l) > 0 {
		for _, g := range l {
			for i, x := range worlds {
				if x != nil && strings.HasPrefix(g.File+"/", x.Dir+"/") && fails[i] == nil {
					fails[i] = g
				}
			}
		}
		if len(fails) == 0 {
			panic(broken{fmt.Errorf("go build: %s", l[0].Text)})
		}
	}
	if len(fails) > 0 {
		var idx []int
		for i := range fails {
			idx = append(idx, i)
		}
		sort.Ints(idx)
		for k, i := range idx {
			if e.verbose() {
				fmt.Printf("%s: %s: %s\n", fails[i].File, fails[i].Stage, head(fails[i].Text, 600))
				continue
			}
			if k >= 2 {
				break
			}
			g, discard := e.exoticOne(worlds[i].Schema)
			if g == nil || discard {
				panic(broken{fmt.Errorf("world %d fails only among the others: %s", i, fails[i].Text)})
			}
			s, g := e.shrinkWorld(worlds[i].Schema, g)
			v := &Replay{Kind: "exotic", Detail: g.Stage + ": " + head(g.Text, 1500), Schema: s}
			for _, f := range s.Files {
				v.Rules += "// " + f.Name + "\n" + f.Text() + "\n"
			}
			r.fail(v)
		}
		return
	}
	// run it
	b := toJSON(all)
	w.write("schema.json", b)
	w.writeMainDirs(all)
	if g := w.buildDriver(); g != nil {
		panic(broken{fmt.Errorf("the driver does not build: %s", g.Text)})
	}
	res := w.drive("-mode", "api", "-seed", fmt.Sprint(e.Seed), "-per", fmt.Sprint(e.pick(30, 60)))
	r.count("driven", "messages", res.Stats.Evaluations)
	for i := range res.Failures {
		f := &res.Failures[i]
		v := &Replay{Kind: "exotic-run", Mode: "api", Detail: f.Kind + ": " + f.Detail, Text: f.Text, Rules: f.Rules, Case: &f.Case}
		for _, x := range worlds {
			if x == nil {
				continue
			}
			if f.Case.Msg != "" && pv.NewReg(x.Schema).Msgs[f.Case.Msg] != nil {
				v.Schema = x.Schema
			}
		}
		if v.Schema == nil {
			v.Schema, v.Case = all, nil
			v.Args = []string{"-mode", "api", "-seed", fmt.Sprint(e.Seed), "-per", "30"}
		}
		r.fail(v)
	}
}

// writeMainDirs links all generated packages.
func (w *W) writeMainDirs(s *pv.Schema) {
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"verif/harness/pv\"\n")
	var l []string
	for d := range goDirs(s) {
		l = append(l, d)
	}
	sort.Strings(l)
	for _, d := range l {
		fmt.Fprintf(&b, "\t_ %q\n", "verifgen/"+d)
	}
	b.WriteString(")\n\nfunc main() { pv.DriverMain() }\n")
	w.write("main.go", b.String())
}

func init() {
	replayers["exotic"] = func(e *Env, v *Replay) string {
		if g, discard := e.exoticOne(v.Schema); g != nil && !discard {
			return g.Stage + ": " + g.Text
		}
		return ""
	}
	replayers["exotic-run"] = func(e *Env, v *Replay) string {
		w := e.newW("replay")
		defer w.remove()
		w.goMod()
		w.writeProtos(v.Schema)
		if g := w.genPb(v.Schema); g != nil {
			return g.Text
		}
		if g := w.genPGV(v.Schema); g != nil {
			return g.Text
		}
		w.writeMainDirs(v.Schema)
		if g := w.buildDriver(); g != nil {
			return g.Text
		}
		args := v.Args
		if v.Case != nil {
			w.write("case.json", toJSON(v.Case))
			args = []string{"-mode", v.Mode, "-replay", filepath.Join(w.dir, "case.json")}
		}
		for _, f := range w.drive(args...).Failures {
			return f.Kind + ": " + f.Detail + "\n    message: " + f.Text
		}
		return ""
	}
}
