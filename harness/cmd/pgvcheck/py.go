package main

import (
	"os"
	"path/filepath"
	"sync"
	"time"

	"verif/harness/pv"
)

// The Python validator. The packages that it needs are not installed: there
// are stand-ins in harness/py/stub, for protobuf's messages, for the language
// of jinja2's templates and for validate_email.

// buildPy gives the schema to Python as descriptors.
func (w *W) buildPy(s *pv.Schema) []*genErr {
	args := []string{"-I", w.dir, "-I", w.e.Repo, "--include_imports", "--descriptor_set_out=" + filepath.Join(w.dir, "fds.bin")}
	for _, f := range s.Files {
		args = append(args, f.Name)
	}
	if o := run(w.dir, nil, time.Minute, nil, "protoc", args...); o.code != 0 {
		return []*genErr{{Stage: "protoc", Text: o.both()}}
	}
	return nil
}

const pyParts = 4

// pyForeign validates the cases in a few processes.
func pyForeign(w *W, dump string) ([]string, string) {
	b, err := os.ReadFile(dump)
	must(err, "dump")
	type part struct {
		lines []string
		died  string
		n     int
	}
	cases := splitLines(b)
	parts := make([]part, pyParts)
	if len(cases) < 100 {
		parts = parts[:1]
	}
	per := (len(cases) + len(parts) - 1) / len(parts)
	var wg sync.WaitGroup
	for i := range parts {
		lo, hi := i*per, (i+1)*per
		if lo > len(cases) {
			lo = len(cases)
		}
		if hi > len(cases) {
			hi = len(cases)
		}
		wg.Add(1)
		go func(p *part, name string, l []string) {
			defer wg.Done()
			p.n = len(l)
			in, res := name+".in", name+".out"
			text := ""
			for _, s := range l {
				text += s + "\n"
			}
			if err := os.WriteFile(in, []byte(text), 0o644); err != nil {
				panic(err)
			}
			os.Remove(res)
			o := run(w.dir, []string{"PYTHONDONTWRITEBYTECODE=1", "PYTHONHASHSEED=0"}, 10*time.Minute, nil, "python3", "-S", "-E", filepath.Join(w.e.Verif, "harness/py/run.py"), w.e.Repo, filepath.Join(w.dir, "fds.bin"), in, res)
			p.lines, p.died = readAnswers(res, o)
		}(&parts[i], dump+"."+string(rune('a'+i)), cases[lo:hi])
	}
	wg.Wait()
	var out []string
	for _, p := range parts {
		out = append(out, p.lines...)
		if p.died != "" || len(p.lines) < p.n {
			return out, p.died
		}
	}
	return out, ""
}

func splitLines(b []byte) []string {
	var l []string
	for i := 0; i < len(b); {
		j := i
		for j < len(b) && b[j] != '\n' {
			j++
		}
		l = append(l, string(b[i:j]))
		i = j + 1
	}
	return l
}

var pyBack = backEnd{lang: "python", kind: "py", flags: []string{"-py"},
	build: func(w *W, s *pv.Schema) []*genErr { return w.buildPy(s) },
	genOne: func(e *Env, s *pv.Schema) *genErr {
		w := e.newW("pyone")
		defer w.remove()
		w.writeProtos(s)
		if l := w.buildPy(s); len(l) > 0 {
			return l[0]
		}
		return nil
	},
	foreign: pyForeign,
	who:     []string{"validate", "the second call of validate"},
	missing: "there is no such message"}

func init() {
	be := &pyBack
	replayers["py-case"] = be.replay
}

// pyModel compares the Python validator with the reference.
func pyModel(schemas []string, q, t goSize) func(e *Env, r *Report) {
	return func(e *Env, r *Report) {
		sz := q
		if e.thorough() {
			sz = t
		}
		r.Rule = "A case is one generated message of one generated message type, judged by two calls of the Python validate and by the reference interpreter. It is non-trivial if at least one field is set or one rule is violated, and distinct by type and wire bytes."
		for round := 0; round < sz.rounds; round++ {
			for i, name := range schemas {
				seed := e.Seed*1009 + int64(round)*31 + int64(i)
				s := pv.BuildPy(name, seed, sz.scale)
				pyBack.round(e, r, s, seed, sz.per)
				if len(r.Viols) > 0 {
					return
				}
			}
		}
	}
}
