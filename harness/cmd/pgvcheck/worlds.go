package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/harness/pv"
)

// Files with unusual names in the back ends of other languages.

// fate is what becomes of a world.
type fate struct {
	g       *genErr
	discard bool // protoc refuses it, or protoc's own code does not compile
}

// javaWorlds generates, compiles and loads the Java code of sets of files.
func (e *Env) javaWorlds(ss []*pv.Schema) []fate {
	fates := make([]fate, len(ss))
	lines := make([]string, len(ss))
	lib := e.javaLib()
	w := e.newW("jworlds")
	defer w.remove()
	parallel(len(ss), func(i int) {
		x := &W{e: e, dir: filepath.Join(w.dir, fmt.Sprint("w", i))}
		must(os.MkdirAll(x.dir, 0o755), "mkdir")
		x.writeProtos(ss[i])
		own, pgv, out := filepath.Join(x.dir, "own"), filepath.Join(x.dir, "pgv"), filepath.Join(x.dir, "out")
		must(os.MkdirAll(own, 0o755), "mkdir")
		must(os.MkdirAll(pgv, 0o755), "mkdir")
		var files []string
		for _, f := range ss[i].Files {
			files = append(files, f.Name)
		}
		o := run(x.dir, nil, 3*time.Minute, nil, "protoc", append([]string{"-I", x.dir, "-I", e.Repo, "--java_out=" + own}, files...)...)
		if o.code != 0 {
			fates[i] = fate{&genErr{Stage: "protoc", Text: tail(o.both(), 2000)}, true}
			return
		}
		o = run(x.dir, nil, 3*time.Minute, nil, "protoc", append([]string{"-I", x.dir, "-I", e.Repo, "--plugin=protoc-gen-validate=" + e.plugin, "--validate_out=lang=java:" + pgv}, files...)...)
		if o.code != 0 {
			fates[i] = fate{g: &genErr{Stage: "plugin", Text: tail(o.both(), 3000)}}
			return
		}
		has := map[string]string{}
		for _, f := range ss[i].Files {
			for full, m := range pv.NewReg(&pv.Schema{Files: []*pv.File{f}}).Msgs {
				switch {
				case !f.NoPgv && !m.Ignored:
					has[full] = "v"
				case f.NoPgv && strings.Contains(f.Text(), "/validate.proto\""):
					// an import with the name of the one that counts
					has[full] = "?"
				}
			}
		}
		var l []string
		for _, f := range javaFiles(own) {
			b, err := os.ReadFile(f)
			must(err, "java")
			pkg := ""
			if m := javaPkg.FindSubmatch(b); m != nil {
				pkg = string(m[1]) + "."
			}
			for _, m := range javaClass.FindAllSubmatch(b, -1) {
				l = append(l, pkg+strings.ReplaceAll(strings.TrimPrefix(string(m[2]), pkg), ".", "$")+"="+has[string(m[1])])
			}
		}
		sort.Strings(l)
		lines[i] = own + "\t" + pgv + "\t" + out + "\t" + lib + "\t" + strings.Join(l, ",")
	})
	const jvms = 8
	parallel(jvms, func(k int) {
		var in []string
		var idx []int
		for i := k; i < len(ss); i += jvms {
			if lines[i] != "" {
				in, idx = append(in, lines[i]), append(idx, i)
			}
		}
		if len(in) == 0 {
			return
		}
		jobs, res := filepath.Join(w.dir, fmt.Sprint("jobs", k)), filepath.Join(w.dir, fmt.Sprint("res", k))
		must(os.WriteFile(jobs, []byte(strings.Join(in, "\n")+"\n"), 0o644), "jobs")
		o := run(w.dir, nil, 12*time.Minute, nil, "java", "-XX:+UseSerialGC", "-Xss4m", "-Xmx1500m", "-cp", lib, "Compile", jobs, res)
		if o.code != 0 {
			panic(broken{fmt.Errorf("Compile: exit %d: %s", o.code, tail(o.both(), 2000))})
		}
		b, err := os.ReadFile(res)
		must(err, "Compile")
		for j, a := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
			stage, txt, _ := strings.Cut(a, "\t")
			txt = strings.NewReplacer(`\\`, `\`, `\n`, "\n", `\t`, "\t", `\r`, "\r").Replace(txt)
			switch stage {
			case "ok":
			case "own":
				fates[idx[j]] = fate{&genErr{Stage: stage, Text: txt}, true}
			default:
				fates[idx[j]] = fate{g: &genErr{Stage: stage, Text: txt}}
			}
		}
	})
	return fates
}

// worldsOf makes the check of a language.
func worldsOf(lang string, q, t int, try func(e *Env, ss []*pv.Schema) []fate) func(e *Env, r *Report) {
	one := func(e *Env) func(s *pv.Schema) (*genErr, bool) {
		return func(s *pv.Schema) (*genErr, bool) {
			f := try(e, []*pv.Schema{s})[0]
			return f.g, f.discard
		}
	}
	replayers["world-"+lang] = func(e *Env, v *Replay) string {
		if g, discard := one(e)(v.Schema); g != nil && !discard {
			return g.Stage + ": " + g.Text
		}
		return ""
	}
	return func(e *Env, r *Report) {
		seen, before := map[string]bool{}, r.Distinct
		for round := 0; round < e.pick(1, 8); round++ {
			n := e.pick(q, t)
			ss := make([]*pv.Schema, n)
			for i := range ss {
				ss[i] = pv.NewWorldFor(e.Seed*1000003+int64(round*n+i)*7+int64(len(lang)), i, lang).Schema
			}
			bad := 0
			for i, f := range try(e, ss) {
				if f.discard {
					r.count("discarded", lang+" "+f.g.Stage, 1)
					if e.verbose() {
						fmt.Println("discarded:", i, f.g.Stage, head(f.g.Text, 300))
					}
					continue
				}
				r.Evaluations++
				r.count("language", lang, 1)
				txt := ""
				for _, x := range ss[i].Files {
					txt += x.Text()
					r.count("files", x.Syntax, 1)
					x.EachMsg(func(m *pv.Msg) { r.count("generated", "message types", 1) })
				}
				seen[txt] = true
				if i%(n/4) == 3 {
					r.sample(fmt.Sprintf("%d files, e.g. %s: %s", len(ss[i].Files), ss[i].Files[0].Name, ss[i].Files[0].Text()))
				}
				if f.g == nil {
					continue
				}
				if e.verbose() {
					fmt.Printf("%d: %s: %s\n", i, f.g.Stage, head(f.g.Text, 600))
					if os.Getenv("PGV_SHRINK") == "" {
						continue
					}
				}
				if bad++; bad > 2 {
					break
				}
				s, g := shrinkSchema(ss[i], f.g, one(e))
				v := &Replay{Kind: "world-" + lang, Detail: g.Stage + ": " + head(g.Text, 1500), Schema: s}
				for _, f := range s.Files {
					v.Rules += "// " + f.Name + "\n" + f.Text() + "\n"
				}
				r.fail(v)
			}
			r.Distinct = before + len(seen)
			if len(r.Viols) > 0 {
				return
			}
		}
		r.Distinct = before + len(seen)
	}
}

var javaWorldsCheck = worldsOf("java", 160, 240, (*Env).javaWorlds)

func unusualCheck(e *Env, r *Report) {
	r.Rule = "A case is one set of .proto files with unusual names, packages and structure whose code for a language is generated, compiled and, for Java, loaded: the validator of each message is found and run. It is non-trivial if protoc's own code of it compiles (the others are discarded); distinct by the text of its files."
	javaWorldsCheck(e, r)
	if len(r.Viols) == 0 {
		ccWorldsCheck(e, r)
	}
}

// ccPch is a precompiled header of what generated code includes.
func (e *Env) ccPch() string {
	dir := filepath.Join(e.Tmp, "ccpch")
	ccPchOnce.Do(func() {
		must(os.MkdirAll(dir, 0o755), "mkdir")
		must(os.WriteFile(filepath.Join(dir, "all.h"), []byte(`#include <algorithm>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_set>
#include <google/protobuf/arena.h>
#include <google/protobuf/extension_set.h>
#include <google/protobuf/generated_enum_reflection.h>
#include <google/protobuf/generated_message_reflection.h>
#include <google/protobuf/generated_message_util.h>
#include <google/protobuf/map.h>
#include <google/protobuf/map_entry.h>
#include <google/protobuf/map_field_inl.h>
#include <google/protobuf/message.h>
#include <google/protobuf/reflection_ops.h>
#include <google/protobuf/repeated_field.h>
#include <google/protobuf/unknown_field_set.h>
#include <google/protobuf/wire_format.h>
#include <google/protobuf/any.pb.h>
#include <google/protobuf/duration.pb.h>
#include <google/protobuf/timestamp.pb.h>
#include <google/protobuf/wrappers.pb.h>
#include <google/protobuf/struct.pb.h>
#include <google/protobuf/util/message_differencer.h>
#include <google/protobuf/util/time_util.h>
#include <re2/re2.h>
#include "validate/validate.pb.h"
#include "validate/validate.h"
#include "run.h"
`), 0o644), "pch")
		if g := e.gxx(dir, "-x", "c++-header", "-I", e.ccLib(), "-I", e.Repo, "-I", filepath.Join(e.Verif, "harness/cc"), "all.h", "-o", "all.h.gch"); g != nil {
			panic(broken{fmt.Errorf("pch: %s", g.Text)})
		}
	})
	return filepath.Join(dir, "all.h")
}

var ccPchOnce sync.Once

// ccWorlds generates and compiles the C++ code of sets of files.
func (e *Env) ccWorlds(ss []*pv.Schema) []fate {
	fates := make([]fate, len(ss))
	pch := e.ccPch()
	ws := make([]*W, len(ss))
	parallel(len(ss), func(i int) {
		x := e.newW("ccworld")
		ws[i] = x
		x.writeProtos(ss[i])
		var files []string
		own := ""
		for j, f := range ss[i].Files {
			files = append(files, f.Name)
			own += fmt.Sprintf("#define schemas schemas%d\n#define file_default_instances file_default_instances%d\n#include %q\n#undef schemas\n#undef file_default_instances\n", j, j, strings.TrimSuffix(f.Name, ".proto")+".pb.cc")
		}
		o := run(x.dir, nil, 3*time.Minute, nil, "protoc", append([]string{"-I", x.dir, "-I", e.Repo, "--cpp_out=" + x.dir}, files...)...)
		if o.code != 0 {
			fates[i] = fate{&genErr{Stage: "protoc", Text: tail(o.both(), 2000)}, true}
			return
		}
		x.write("own.cc", own)
		if g := e.gxx(x.dir, append(x.ccInclude(), "-include", pch, "-fsyntax-only", "own.cc")...); g != nil {
			g.Stage = "own"
			fates[i] = fate{g, true}
			return
		}
		o = run(x.dir, nil, 3*time.Minute, nil, "protoc", append([]string{"-I", x.dir, "-I", e.Repo, "--plugin=protoc-gen-validate=" + e.plugin, "--validate_out=lang=cc:" + x.dir}, files...)...)
		if o.code != 0 {
			fates[i] = fate{g: &genErr{Stage: "plugin", Text: tail(o.both(), 3000)}}
		}
	})
	type job struct{ world, file int }
	var jobs []job
	for i := range ss {
		if fates[i].g == nil {
			for j := range ss[i].Files {
				jobs = append(jobs, job{i, j})
			}
		}
	}
	errs := make([]*genErr, len(jobs))
	parallel(len(jobs), func(k int) {
		x, f := ws[jobs[k].world], ss[jobs[k].world].Files[jobs[k].file]
		u := x.ccUnit(f.Name)
		if u == "" {
			errs[k] = &genErr{Stage: "files", Text: "no header of validators, or one without its X_ macro: " + f.Name}
			return
		}
		want := 0
		f.EachMsg(func(m *pv.Msg) {
			if !m.Ignored {
				want++
			}
		})
		b, err := os.ReadFile(filepath.Join(x.dir, u))
		must(err, "unit")
		if m := unitMacro.FindSubmatch(b); m != nil {
			b = append(b, fmt.Sprintf("#define PGV_ONE(T) +1\nstatic_assert(0 %s(PGV_ONE) == %d, \"the X_ macro has not one entry for each of the %d messages\");\n", m[1], want, want)...)
			x.write(u, string(b))
		}
		errs[k] = e.gxx(x.dir, append(x.ccInclude(), "-include", pch, "-fsyntax-only", u)...)
	})
	for k, g := range errs {
		if g != nil && fates[jobs[k].world].g == nil {
			fates[jobs[k].world] = fate{g: g}
		}
	}
	for _, x := range ws {
		x.remove()
	}
	return fates
}

var ccWorldsCheck = worldsOf("cc", 60, 120, (*Env).ccWorlds)
