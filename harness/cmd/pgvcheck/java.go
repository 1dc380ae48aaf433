package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/harness/pv"
)

// The Java back end: protobuf's runtime, and the libraries of the Java
// validators, are stubs in harness/java/stub (there are no jars here); the
// runtime of the validators is the repository's.

func (e *Env) javac(dir string, args ...string) *genErr {
	o := run(dir, nil, 10*time.Minute, nil, "javac", append([]string{"-J-XX:+UseSerialGC", "-J-XX:TieredStopAtLevel=1", "-proc:none", "-nowarn", "-encoding", "UTF-8", "-g:source,lines", "-Xmaxerrs", "2000"}, args...)...)
	if o.timeout {
		panic(broken{fmt.Errorf("javac timed out")})
	}
	if o.code != 0 {
		if o.code != 1 {
			panic(broken{fmt.Errorf("javac: exit %d: %s", o.code, tail(o.both(), 1000))})
		}
		return &genErr{Stage: "compile", Text: o.both()}
	}
	return nil
}

func javaFiles(dirs ...string) []string {
	var l []string
	for _, d := range dirs {
		must(filepath.Walk(d, func(p string, i os.FileInfo, err error) error {
			if err == nil && strings.HasSuffix(p, ".java") {
				l = append(l, p)
			}
			return err
		}), "walk")
	}
	sort.Strings(l)
	return l
}

var javaOnce sync.Once
var javaBase string

// javaLib compiles the stubs, protobuf's well known types, the runtime of the
// validators and the main program, once.
func (e *Env) javaLib() string {
	javaOnce.Do(func() {
		javaBase = filepath.Join(e.Tmp, "javabase")
		gen, out := filepath.Join(javaBase, "gen"), filepath.Join(javaBase, "classes")
		must(os.MkdirAll(gen, 0o755), "mkdir")
		must(os.MkdirAll(out, 0o755), "mkdir")
		args := []string{"--java_out=" + gen}
		for _, n := range []string{"any", "duration", "timestamp", "wrappers", "struct", "field_mask", "empty"} {
			args = append(args, "google/protobuf/"+n+".proto")
		}
		o := run(javaBase, nil, time.Minute, nil, "protoc", args...)
		if o.code != 0 {
			panic(broken{fmt.Errorf("protoc: %s", o.both())})
		}
		src := javaFiles(gen, filepath.Join(e.Verif, "harness/java/stub"), filepath.Join(e.Verif, "harness/java/run"),
			filepath.Join(e.Repo, "java/pgv-java-stub/src/main/java"))
		if g := e.javac(javaBase, append([]string{"-d", out}, src...)...); g != nil {
			panic(broken{fmt.Errorf("the Java runtime does not compile: %s", head(g.Text, 3000))})
		}
	})
	return filepath.Join(javaBase, "classes")
}

// javaGen generates the Java code of the files.
func (w *W) javaGen(s *pv.Schema) []*genErr {
	must(os.MkdirAll(filepath.Join(w.dir, "java"), 0o755), "mkdir")
	errs := make([]*genErr, len(s.Files))
	parallel(len(s.Files), func(i int) {
		f := s.Files[i].Name
		o := run(w.dir, nil, 3*time.Minute, nil, "protoc", "-I", w.dir, "-I", w.e.Repo, "--java_out="+filepath.Join(w.dir, "java"), f)
		if o.code != 0 {
			panic(broken{fmt.Errorf("protoc --java_out: %s", o.both())})
		}
		o = run(w.dir, nil, 3*time.Minute, nil, "protoc", "-I", w.dir, "-I", w.e.Repo, "--plugin=protoc-gen-validate="+w.e.plugin,
			"--validate_out=lang=java:"+filepath.Join(w.dir, "java"), f)
		if o.code != 0 {
			errs[i] = &genErr{File: f, Stage: "plugin", Text: tail(o.both(), 3000)}
		}
	})
	var out []*genErr
	for _, g := range errs {
		if g != nil {
			out = append(out, g)
		}
	}
	return out
}

var (
	javaErr    = regexp.MustCompile(`(?m)^(\S+\.java):\d+: error: `)
	javaSource = regexp.MustCompile(`(?m)^// source: (\S+)`)
	javaPkg    = regexp.MustCompile(`(?m)^package (\S+);`)
	javaClass  = regexp.MustCompile(`// @@protoc_insertion_point\(class_scope:(\S+)\)\s+private static final (\S+) DEFAULT_INSTANCE`)
)

// javaCompile compiles the generated Java code and tells the .proto files of
// that which does not compile.
func (w *W) javaCompile() []*genErr {
	d := filepath.Join(w.dir, "java")
	out := filepath.Join(w.dir, "classes")
	must(os.MkdirAll(out, 0o755), "mkdir")
	g := w.e.javac(d, append([]string{"-cp", w.e.javaLib(), "-d", out}, javaFiles(d)...)...)
	if g == nil {
		return nil
	}
	by := map[string]*genErr{}
	var l []*genErr
	idx := javaErr.FindAllStringSubmatchIndex(g.Text, -1)
	for i, m := range idx {
		file := g.Text[m[2]:m[3]]
		b, err := os.ReadFile(file)
		must(err, "java")
		src := ""
		if x := javaSource.FindSubmatch(b); x != nil {
			src = string(x[1])
		}
		if !strings.HasSuffix(file, "Validator.java") {
			panic(broken{fmt.Errorf("protoc's own Java code does not compile: %s", head(g.Text[m[0]:], 2000))})
		}
		if by[src] == nil {
			end := len(g.Text)
			if i+1 < len(idx) {
				end = idx[i+1][0]
			}
			by[src] = &genErr{File: src, Stage: "compile", Text: g.Text[m[0]:end]}
			l = append(l, by[src])
		}
	}
	if len(l) == 0 {
		return []*genErr{{Stage: "compile", Text: head(g.Text, 3000)}}
	}
	return l
}

// buildJava compiles the Java code and writes the table of its classes.
func (w *W) buildJava(s *pv.Schema) []*genErr {
	if l := w.javaGen(s); len(l) > 0 {
		return l
	}
	if l := w.javaCompile(); len(l) > 0 {
		return l
	}
	var tab strings.Builder
	d := filepath.Join(w.dir, "java")
	files := map[string]bool{}
	all := javaFiles(d)
	for _, f := range all {
		files[f] = true
	}
	for _, f := range all {
		b, err := os.ReadFile(f)
		must(err, "java")
		pkg := ""
		if m := javaPkg.FindSubmatch(b); m != nil {
			pkg = string(m[1]) + "."
		}
		for _, m := range javaClass.FindAllSubmatch(b, -1) {
			line := string(m[1]) + "\t" + string(m[2])
			outer, _, _ := strings.Cut(strings.TrimPrefix(string(m[2]), pkg), ".")
			v := pkg + outer + "Validator"
			if files[filepath.Join(d, strings.ReplaceAll(v, ".", "/")+".java")] {
				line += "\t" + v
			}
			tab.WriteString(line + "\n")
		}
	}
	w.write("classes.txt", tab.String())
	return nil
}

// javaGenOne generates and compiles a small schema in a fresh workspace.
func (e *Env) javaGenOne(s *pv.Schema) *genErr {
	w := e.newW("javaone")
	defer w.remove()
	w.writeProtos(s)
	if l := w.javaGen(s); len(l) > 0 {
		return l[0]
	}
	if l := w.javaCompile(); len(l) > 0 {
		return l[0]
	}
	return nil
}

func javaForeign(w *W, dump string) ([]string, string) {
	res := dump + ".out"
	os.Remove(res)
	o := run(w.dir, nil, 10*time.Minute, nil, "java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xss4m", "-cp", w.e.javaLib()+":"+filepath.Join(w.dir, "classes"),
		"Run", filepath.Join(w.dir, "classes.txt"), dump, res)
	return readAnswers(res, o)
}

var javaBack = backEnd{lang: "java", kind: "java", flags: []string{"-java"},
	build:   func(w *W, s *pv.Schema) []*genErr { return w.buildJava(s) },
	genOne:  (*Env).javaGenOne,
	foreign: javaForeign,
	who:     []string{"ReflectiveValidatorIndex", "ExplicitValidatorIndex"},
	missing: "no class has the name of the message"}

func init() {
	be := &javaBack
	replayers["java-case"] = be.replay
	replayers["java-gen"] = func(e *Env, v *Replay) string {
		if g := e.javaGenOne(v.Schema); g != nil {
			return g.Stage + ": " + g.Text
		}
		return ""
	}
}

// javaModel compares generated Java code with the reference.
func javaModel(schemas []string, q, t goSize) func(e *Env, r *Report) {
	return func(e *Env, r *Report) {
		sz := q
		if e.thorough() {
			sz = t
		}
		r.Rule = "A case is one generated message of one generated message type, judged by the generated Java validator found through a ReflectiveValidatorIndex and through an ExplicitValidatorIndex, and by the reference interpreter. It is non-trivial if at least one field is set or one rule is violated, and distinct by type and wire bytes."
		for round := 0; round < sz.rounds; round++ {
			for i, name := range schemas {
				seed := e.Seed*1009 + int64(round)*31 + int64(i)
				s := pv.BuildJava(name, seed, sz.scale)
				javaBack.round(e, r, s, seed, sz.per)
				if len(r.Viols) > 0 {
					return
				}
			}
		}
	}
}
