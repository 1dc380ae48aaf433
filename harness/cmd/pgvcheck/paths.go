package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"

	"verif/harness/pv"
)

// javaOpts gives some files the options that decide where Java code goes.
func javaOpts(r *rand.Rand, s *pv.Schema) {
	for _, f := range s.Files {
		var o []string
		for _, x := range f.Options {
			if !strings.HasPrefix(x, "java_multiple_files") {
				o = append(o, x)
			}
		}
		f.Options = o
		if r.Intn(3) == 0 {
			f.Options = append(f.Options, fmt.Sprintf("java_package = %q", []string{"com.example", "com.example.v1", "Foo", "a.b.c.d", "io.my_pkg.x1"}[r.Intn(5)]))
		}
		if r.Intn(3) == 0 {
			f.Options = append(f.Options, "java_multiple_files = "+[]string{"true", "true", "false"}[r.Intn(3)])
		}
		if r.Intn(4) == 0 {
			f.Options = append(f.Options, fmt.Sprintf("java_outer_classname = %q", []string{"Outer", "FooProto", "x", "My_Outer", "V1"}[r.Intn(5)]))
		}
	}
}

// reqSet is what a world's requests are made of.
type reqSet struct {
	files []*descriptorpb.FileDescriptorProto // imports first
	gen   []string                            // the world's files
}

func (w *W) reqSet(s *pv.Schema) (*reqSet, *genErr) {
	rs := &reqSet{}
	for _, f := range s.Files {
		rs.gen = append(rs.gen, f.Name)
	}
	outf := filepath.Join(w.dir, strings.ReplaceAll(filepath.Dir(rs.gen[0]), "/", "_")+".fds")
	o := run(w.dir, nil, 180e9, nil, "protoc", append([]string{"-I", w.dir, "-I", w.e.Repo, "--include_imports", "--include_source_info", "--descriptor_set_out=" + outf}, rs.gen...)...)
	if o.code != 0 {
		return nil, &genErr{File: rs.gen[0], Stage: "protoc", Text: o.both()}
	}
	b, err := os.ReadFile(outf)
	must(err, "descriptor set")
	// the extensions stay as they are in the bytes
	var set descriptorpb.FileDescriptorSet
	must(proto.UnmarshalOptions{Resolver: nil}.Unmarshal(b, &set), "descriptor set")
	rs.files = set.File
	return rs, nil
}

// request builds the bytes of a CodeGeneratorRequest.
func (rs *reqSet) request(gen []string, param string, r *rand.Rand) []byte {
	need := map[string]bool{}
	by := map[string]*descriptorpb.FileDescriptorProto{}
	for _, f := range rs.files {
		by[f.GetName()] = f
	}
	// protoc sends what the files need, imports first; which of several such
	// orders depends on the command line
	var order []*descriptorpb.FileDescriptorProto
	var add func(n string)
	add = func(n string) {
		if need[n] {
			return
		}
		need[n] = true
		deps := append([]string{}, by[n].GetDependency()...)
		if r != nil {
			r.Shuffle(len(deps), func(i, j int) { deps[i], deps[j] = deps[j], deps[i] })
		}
		for _, d := range deps {
			add(d)
		}
		order = append(order, by[n])
	}
	for _, g := range gen {
		add(g)
	}
	req := &pluginpb.CodeGeneratorRequest{FileToGenerate: gen, ProtoFile: order, CompilerVersion: &pluginpb.Version{Major: proto.Int32(3), Minor: proto.Int32(21), Patch: proto.Int32(12)}}
	if param != "" {
		req.Parameter = &param
	}
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(req)
	must(err, "request")
	return b
}

type plugOut struct {
	raw   []byte
	err   string
	names []string
	files map[string]string
	dup   string
}

// plug runs a plugin on a request.
func plug(bin string, req []byte) *plugOut {
	o := run("/", nil, 180e9, req, bin)
	if o.timeout {
		panic(broken{fmt.Errorf("%s timed out", bin)})
	}
	p := &plugOut{raw: []byte(o.stdout), files: map[string]string{}}
	if o.code != 0 {
		p.err = fmt.Sprintf("exit code %d: %s", o.code, tail(o.stderr, 600))
		return p
	}
	var resp pluginpb.CodeGeneratorResponse
	if err := proto.Unmarshal(p.raw, &resp); err != nil {
		p.err = "no response: " + err.Error()
		return p
	}
	if resp.Error != nil {
		p.err = "error: " + resp.GetError()
		return p
	}
	for _, f := range resp.File {
		if _, ok := p.files[f.GetName()]; ok {
			p.dup = f.GetName()
		}
		p.files[f.GetName()] = f.GetContent()
		p.names = append(p.names, f.GetName())
	}
	return p
}

func sortedNames(m map[string]string) []string {
	var l []string
	for n := range m {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

func diffSets(got, want map[string]string) string {
	var miss, extra []string
	for n := range want {
		if _, ok := got[n]; !ok {
			miss = append(miss, n)
		}
	}
	for n := range got {
		if _, ok := want[n]; !ok {
			extra = append(extra, n)
		}
	}
	sort.Strings(miss)
	sort.Strings(extra)
	if len(miss)+len(extra) == 0 {
		return ""
	}
	return fmt.Sprintf("missing %q, not expected %q", miss, extra)
}

func firstDiff(a, b string) string {
	al, bl := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range al {
		if i >= len(bl) || al[i] != bl[i] {
			x := "(end)"
			if i < len(bl) {
				x = bl[i]
			}
			return fmt.Sprintf("line %d: %q, and %q", i+1, al[i], x)
		}
	}
	return fmt.Sprintf("%d lines, and %d", len(al), len(bl))
}

var javaPkgLine = regexp.MustCompile(`(?m)^\s*package\s*([^;]*);`)

// pathsOne judges one world; an empty string: all is well.
func (e *Env) pathsOne(w *W, s *pv.Schema, seed int64, count func(k, sub string, n int)) (viol string, discard bool) {
	r := rand.New(rand.NewSource(seed))
	rs, g := w.reqSet(s)
	if g != nil {
		return g.Text, true
	}
	pbGo := plug(e.genGo, rs.request(rs.gen, "", nil))
	if pbGo.err != "" {
		return pbGo.err, true
	}
	goDir := "verifgen/" + strings.SplitN(s.Files[0].Name, "/", 2)[0]
	for _, lang := range []string{"go", "cc", "java"} {
		p := "lang=" + lang
		if lang == "go" && r.Intn(2) == 0 {
			p += ",paths=source_relative"
		}
		// the same request, again and again
		req := rs.request(rs.gen, p, nil)
		all := plug(e.plugin, req)
		if all.err != "" && lang == "java" && strings.Contains(all.err, "onflict") {
			count("skipped", "two files want the same Java class", 1)
			continue
		}
		if all.err != "" {
			return fmt.Sprintf("%s: refused: %s", p, all.err), false
		}
		for i := 0; i < 3; i++ {
			again := plug(e.plugin, req)
			count("requests", lang, 1)
			if !bytes.Equal(all.raw, again.raw) {
				d := fmt.Sprintf("the files come as %q, and as %q", all.names, again.names)
				for n, c := range all.files {
					if again.files[n] != c {
						d = n + ": " + firstDiff(c, again.files[n])
					}
				}
				return fmt.Sprintf("%s: the same request, another response: %s", p, d), false
			}
		}
		// the files in another order
		sh := append([]string{}, rs.gen...)
		r.Shuffle(len(sh), func(i, j int) { sh[i], sh[j] = sh[j], sh[i] })
		other := plug(e.plugin, rs.request(sh, p, r))
		count("requests", lang, 1)
		if other.err != "" {
			return fmt.Sprintf("%s: files %q refused: %s", p, sh, other.err), false
		}
		if d := diffSets(other.files, all.files); d != "" {
			return fmt.Sprintf("%s: files %q: %s", p, sh, d), false
		}
		for n, c := range all.files {
			if other.files[n] != c {
				return fmt.Sprintf("%s: %s depends on the order of the files (%q): %s", p, n, sh, firstDiff(c, other.files[n])), false
			}
		}
		// one by one, and a few together
		union := map[string]string{}
		parts := [][]string{}
		for _, n := range rs.gen {
			parts = append(parts, []string{n})
		}
		if len(sh) > 2 {
			parts = append(parts, sh[:len(sh)-1], sh[1:])
		}
		dup := all.dup != ""
		for _, n := range parts {
			one := plug(e.plugin, rs.request(n, p, r))
			count("requests", lang, 1)
			if one.err != "" {
				return fmt.Sprintf("%s: %q alone refused: %s", p, n, one.err), false
			}
			for k, c := range one.files {
				if u, ok := union[k]; ok && len(n) == 1 {
					dup = dup || u != c
				}
				union[k] = c
				if !dup && all.files[k] != c {
					return fmt.Sprintf("%s: %s depends on what else is generated (%q or %q): %s", p, k, n, rs.gen, firstDiff(c, all.files[k])), false
				}
			}
		}
		if dup {
			count("skipped", "two files want the same Java class", 1)
			continue
		}
		if d := diffSets(union, all.files); d != "" {
			return fmt.Sprintf("%s: one by one: %s", p, d), false
		}
		// where the files are
		switch lang {
		case "go":
			mods := []string{"", "", "paths=import", "module=verifgen", "module=" + goDir, "module=verif", "module=gen", "module=" + path.Base(goDir)}
			for _, m := range append(mods, "paths=source_relative") {
				want := plug(e.genGo, rs.request(rs.gen, m, nil))
				q := "lang=go"
				if m != "" {
					q += "," + m
				}
				got := plug(e.plugin, rs.request(rs.gen, q, nil))
				count("requests", lang, 1)
				exp := map[string]string{}
				if want.err == "" {
					for n := range want.files {
						exp[strings.TrimSuffix(n, ".pb.go")+".pb.validate.go"] = ""
					}
				} else if strings.HasPrefix(m, "module=") {
					// not below this module: protoc-gen-go refuses it
					if got.err != "" {
						continue
					}
					for n := range pbGo.files {
						exp[strings.TrimSuffix(n, ".pb.go")+".pb.validate.go"] = ""
					}
				} else {
					continue
				}
				if got.err != "" {
					return fmt.Sprintf("%s: refused: %s", q, got.err), false
				}
				count("paths compared", q[:min(len(q), 15)], len(exp))
				if d := diffSets(got.files, exp); d != "" {
					return fmt.Sprintf("%s: beside the files of protoc-gen-go: %s", q, d), false
				}
			}
		case "cc":
			exp := map[string]string{}
			for _, n := range rs.gen {
				b := strings.TrimSuffix(n, ".proto")
				exp[b+".pb.validate.h"], exp[b+".pb.validate.cc"] = "", ""
			}
			count("paths compared", "cc", len(exp))
			if d := diffSets(all.files, exp); d != "" {
				return fmt.Sprintf("%s: %s", p, d), false
			}
			for n, c := range all.files {
				if strings.HasSuffix(n, ".cc") && !strings.Contains(c, `"`+strings.TrimSuffix(n, ".cc")+`.h"`) {
					return fmt.Sprintf("%s: %s does not include its header", p, n), false
				}
			}
		case "java":
			if v, skip := e.javaPaths(w, s, all, count); v != "" {
				return p + ": " + v, false
			} else if skip {
				count("skipped", "refused by protoc --java_out", 1)
			}
		}
	}
	// no language, or one that is none
	for _, p := range []string{"", "lang=", "lang=" + []string{"rust", "Go", "cpp", "python", "gogo", "h", "javanano"}[r.Intn(7)], "paths=source_relative", "Lang=go"} {
		got := plug(e.plugin, rs.request(rs.gen, p, nil))
		count("requests", "refused", 1)
		if got.err == "" {
			return fmt.Sprintf("parameter %q is accepted, with the files %q", p, got.names), false
		}
		if strings.Contains(got.err, "panic:") || strings.Contains(got.err, "goroutine ") {
			return fmt.Sprintf("parameter %q: %s", p, got.err), false
		}
	}
	return "", false
}

// javaPaths compares the files with those of protoc's own Java generator.
func (e *Env) javaPaths(w *W, s *pv.Schema, all *plugOut, count func(k, sub string, n int)) (string, bool) {
	exp := map[string]string{} // path -> file
	pkgs := map[string]string{}
	maybe := map[string]bool{} // may be missing
	for _, f := range s.Files {
		d, err := os.MkdirTemp(w.dir, "java")
		must(err, "mkdir")
		o := run(w.dir, nil, 180e9, nil, "protoc", "-I", w.dir, "-I", e.Repo, "--java_out="+d, f.Name)
		if o.code != 0 {
			os.RemoveAll(d)
			return "", true
		}
		var got []string
		filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				rel, _ := filepath.Rel(d, p)
				got = append(got, rel)
			}
			return nil
		})
		isFile := map[string]bool{}
		for _, n := range got {
			isFile[n] = true
		}
		// A file that does not import the rules has no validator. Which copy
		// of validate.proto is imported does not matter, so that a file of
		// this name that is something else may do as well.
		may := false
		for _, l := range [][]string{f.Imports, f.Public} {
			for _, i := range l {
				may = may || strings.HasSuffix(i, "validate.proto")
			}
		}
		if f.NoPgv && !may {
			os.RemoveAll(d)
			continue
		}
		multi := false
		for _, o := range f.Options {
			multi = multi || o == "java_multiple_files = true"
		}
		dir := path.Dir(got[0])
		if dir == "." {
			dir = ""
		}
		if !multi {
			if len(got) != 1 {
				os.RemoveAll(d)
				return "", true
			}
			n := strings.TrimSuffix(got[0], ".java") + "Validator.java"
			exp[n] = f.Name
			maybe[n] = f.NoPgv
			pkgs[n] = strings.ReplaceAll(dir, "/", ".")
		} else {
			for _, m := range f.Msgs {
				if m.Ignored {
					// nothing asks for its validator
					continue
				}
				n := path.Join(dir, m.Name)
				if !isFile[n+".java"] {
					panic(broken{fmt.Errorf("protoc has no %s.java: %v", n, got)})
				}
				exp[n+"Validator.java"] = f.Name
				maybe[n+"Validator.java"] = f.NoPgv
				pkgs[n+"Validator.java"] = strings.ReplaceAll(dir, "/", ".")
			}
		}
		os.RemoveAll(d)
	}
	got := map[string]string{}
	for n, c := range all.files {
		got[n] = c
	}
	// ignored messages may have a file
	for _, f := range s.Files {
		for _, m := range f.Msgs {
			if !m.Ignored {
				continue
			}
			for n := range got {
				if path.Base(n) == m.Name+"Validator.java" && exp[n] == "" {
					delete(got, n)
				}
			}
		}
	}
	for n := range maybe {
		if _, ok := got[n]; maybe[n] && !ok {
			delete(exp, n)
		}
	}
	if d := diffSets(got, exp); d != "" {
		return "beside the classes of protoc: " + d, false
	}
	count("paths compared", "java", len(exp))
	for n := range exp {
		c := got[n]
		class := strings.TrimSuffix(path.Base(n), ".java")
		if !regexp.MustCompile(`(?m)^\s*public (final )?class ` + class + `\b`).MatchString(c) {
			return fmt.Sprintf("%s has no class %s: %s", n, class, head(c, 400)), false
		}
		m := javaPkgLine.FindStringSubmatch(c)
		p := ""
		if m != nil {
			p = strings.TrimSpace(m[1])
			if p == "" {
				return fmt.Sprintf("%s has a package statement without a name", n), false
			}
		}
		if p != pkgs[n] {
			return fmt.Sprintf("%s is in package %q, want %q", n, p, pkgs[n]), false
		}
	}
	return "", false
}

func pathsWorld(seed int64, n int) *pv.Schema {
	s := pv.NewWorld(seed, n).Schema
	javaOpts(rand.New(rand.NewSource(seed)), s)
	return s
}

func pathsCheck(e *Env, r *Report) {
	r.Rule = "A case is a set of .proto files with unusual names, Go packages and Java options. For each language it is generated three times again, with the files in another order, one by one and some together, and the paths are compared with those of protoc-gen-go and protoc --java_out. It is non-trivial if protoc and protoc-gen-go accept it; distinct by the text of its files."
	n := e.pick(60, 900)
	w := e.newW("paths")
	defer w.remove()
	var mu sync.Mutex
	seen := map[string]bool{}
	fails := map[int]string{}
	count := func(k, sub string, n int) {
		mu.Lock()
		r.count(k, sub, n)
		mu.Unlock()
	}
	parallel(n, func(i int) {
		s := pathsWorld(e.Seed*7000003+int64(i), i)
		for _, f := range s.Files {
			w.write(f.Name, f.Text())
		}
		v, discard := e.pathsOne(w, s, e.Seed*31+int64(i), count)
		mu.Lock()
		defer mu.Unlock()
		if discard {
			if e.verbose() {
				fmt.Println("discarded:", v)
			}
			r.count("discarded", "refused by protoc or protoc-gen-go", 1)
			return
		}
		r.Evaluations++
		txt := ""
		for _, f := range s.Files {
			txt += f.Name + f.Text()
		}
		seen[txt] = true
		r.count("files per case", fmt.Sprint(len(s.Files)), 1)
		if i%(n/4) == 2 {
			var l []string
			for _, f := range s.Files {
				l = append(l, f.Name+" "+f.GoPkg+" "+strings.Join(f.Options, " "))
			}
			r.sample(strings.Join(l, "; "))
		}
		if v != "" {
			fails[i] = v
		}
	})
	r.Distinct = len(seen)
	var idx []int
	for i := range fails {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	for k, i := range idx {
		if e.verbose() {
			fmt.Println(i, fails[i])
			continue
		}
		if k >= 2 {
			break
		}
		s, v := e.shrinkPaths(pathsWorld(e.Seed*7000003+int64(i), i), e.Seed*31+int64(i), fails[i])
		rp := &Replay{Kind: "paths", Detail: v, Schema: s, Seed: e.Seed*31 + int64(i)}
		for _, f := range s.Files {
			rp.Rules += "// " + f.Name + "\n" + f.Text() + "\n"
		}
		r.fail(rp)
	}
}

// pathsIn judges a world in a workspace of its own. Whether the same request
// has the same response may be a matter of luck: it is asked a few times.
func (e *Env) pathsIn(s *pv.Schema, seed int64) string {
	w := e.newW("paths1")
	defer w.remove()
	for _, f := range s.Files {
		w.write(f.Name, f.Text())
	}
	for i := 0; i < 4; i++ {
		v, discard := e.pathsOne(w, s, seed, func(string, string, int) {})
		if discard {
			return ""
		}
		if v != "" {
			return v
		}
	}
	return ""
}

func (e *Env) shrinkPaths(s *pv.Schema, seed int64, v string) (*pv.Schema, string) {
	kind := func(v string) string { return strings.SplitN(v, ":", 2)[0] }
	for tries, again := 0, true; again && tries < 60; {
		again = false
		for k := 0; tries < 60; k++ {
			c := cloneSchema(s)
			if !pv.DropNth(c, k) {
				break
			}
			tries++
			if x := e.pathsIn(c, seed); x != "" && kind(x) == kind(v) {
				s, v, again = c, x, true
				k--
			}
		}
	}
	return s, v
}

func init() {
	replayers["paths"] = func(e *Env, v *Replay) string { return e.pathsIn(v.Schema, v.Seed) }
}
