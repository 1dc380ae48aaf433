package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"verif/harness/pv"
)

// judgeBad runs the plugin on one file and says what is wrong with the way
// it took it, "" if nothing is.
func (e *Env) judgeBad(c *pv.BadCase, lang string) string {
	w := e.newW("bad")
	defer w.remove()
	var names []string
	for _, f := range c.Schema.Files {
		w.write(f.Name, f.Text())
		names = append(names, f.Name)
	}
	must(os.MkdirAll(filepath.Join(w.dir, "out"), 0o755), "mkdir")
	// protoc alone has to take it
	o := e.protocValidate(w, lang, names...)
	txt := o.both()
	if c.Label == "" {
		if o.code != 0 {
			return "refused although its rules are consistent: " + head(txt, 1500)
		}
		return ""
	}
	if o.code == 0 {
		return "accepted although its rules are not consistent (" + c.Label + ")"
	}
	for _, s := range []string{"panic:", "runtime error", "goroutine ", "failed post-processing", "unable to convert", "unknown rule type", "template:", "unable to render", "%!", "SIGSEGV"} {
		if strings.Contains(txt, s) {
			return "not refused by the rule checker but by an accident (" + c.Label + "): " + head(txt, 1500)
		}
	}
	if !strings.Contains(txt, c.Field) || !strings.Contains(txt, c.Msg) {
		return "refused without naming the message and field (" + c.Label + "): " + head(txt, 1500)
	}
	left, _ := filepath.Glob(filepath.Join(w.dir, "out/*"))
	if len(left) > 0 {
		return "refused, but files were written: " + strings.Join(left, " ")
	}
	return ""
}

// protocValidate runs only the validate plugin, into out/.
func (e *Env) protocValidate(w *W, lang string, files ...string) out {
	opt := "lang=" + lang
	if lang == "go" {
		opt += ",paths=source_relative"
	}
	return run(w.dir, nil, 300e9, nil, "protoc", append([]string{"-I", w.dir, "-I", e.Repo, "--plugin=protoc-gen-validate=" + e.plugin,
		"--validate_out=" + opt + ":" + filepath.Join(w.dir, "out")}, files...)...)
}

func rulesCheck(e *Env, r *Report) {
	r.Rule = "A case is one .proto file given to the plugin: one with a single contradiction or type error in the rules of one field, or one with consistent rules, generated ones or ones just on the right side of a contradiction. Non-trivial are all that have an error in them, or rules; distinct by file text."
	n := e.pick(2500, 30000)
	var mu sync.Mutex
	seen := map[string]bool{}
	langs := []string{"go", "go", "cc", "java"}
	stop := false
	parallel(n, func(i int) {
		mu.Lock()
		s := stop
		mu.Unlock()
		if s {
			return
		}
		seed := e.Seed*1000003 + int64(i)
		c := pv.NewBadCase(seed)
		lang := langs[i%len(langs)]
		bad := e.judgeBad(c, lang)
		mu.Lock()
		defer mu.Unlock()
		r.Evaluations++
		seen[c.Text()] = true
		if c.Label != "" {
			r.count("refused", strings.SplitN(c.Label, ":", 2)[0], 1)
			r.count("contradictions", c.Label, 1)
		} else {
			r.count("accepted", "disabled", 1)
		}
		if i%(n/10) == 0 {
			r.sample(c.String() + ": " + msgText(c))
		}
		if bad != "" {
			stop = len(r.Viols) >= 2
			v := &Replay{Kind: "bad", Mode: lang, Detail: c.String() + ": " + bad, Seed: seed, Schema: c.Schema, Args: []string{c.Label, c.Why, c.Msg, c.Field, c.File}, Rules: msgText(c)}
			r.fail(v)
		}
	})
	if len(r.Viols) > 0 {
		return
	}
	// consistent rules, many messages to a file
	m := e.pick(12, 200)
	for i := 0; i < m; i++ {
		s := pv.GoodSchema(e.Seed*7919+int64(i), 240)
		w := e.newW("good")
		w.writeProtos(s)
		lang := langs[i%len(langs)]
		must(os.MkdirAll(filepath.Join(w.dir, "out"), 0o755), "mkdir")
		accepts := func(s *pv.Schema, w *W) (bad []*genErr) {
			parallel(len(s.Files), func(k int) {
				if o := e.protocValidate(w, lang, s.Files[k].Name); o.code != 0 {
					mu.Lock()
					bad = append(bad, &genErr{File: s.Files[k].Name, Stage: "plugin", Text: tail(o.both(), 3000)})
					mu.Unlock()
				}
			})
			return
		}
		bad := accepts(s, w)
		w.remove()
		for _, f := range s.Files {
			for _, m := range f.Msgs {
				if m.Tag != "good" {
					continue
				}
				r.Evaluations++
				seen[m.Text()] = true
				r.count("accepted", "consistent message types", 1)
			}
		}
		if len(bad) > 0 {
			one := func(s *pv.Schema) *genErr {
				w := e.newW("good1")
				defer w.remove()
				w.writeProtos(s)
				must(os.MkdirAll(filepath.Join(w.dir, "out"), 0o755), "mkdir")
				if b := accepts(s, w); len(b) > 0 {
					return b[0]
				}
				return nil
			}
			sub, full, g := e.isolate(s, bad, one)
			v := &Replay{Kind: "bad", Mode: lang, Detail: fmt.Sprintf("%s is refused although its rules are consistent: %s", full, head(g.Text, 1500)), Schema: sub, Args: []string{"", "consistent", full, "", ""}}
			if m := pv.NewReg(sub).Msgs[full]; m != nil {
				v.Rules = m.Text()
			}
			r.fail(v)
			return
		}
	}
	r.Distinct = len(seen)
}

func msgText(c *pv.BadCase) string {
	var out string
	for _, f := range c.Schema.Files {
		f.EachMsg(func(m *pv.Msg) {
			if m.Name == c.Msg && f.Name == c.File {
				out = m.Text()
			}
		})
	}
	return out
}

func init() {
	replayers["bad"] = func(e *Env, v *Replay) string {
		c := &pv.BadCase{Schema: v.Schema, Label: v.Args[0], Why: v.Args[1], Msg: v.Args[2], Field: v.Args[3], File: v.Args[4]}
		return e.judgeBad(c, v.Mode)
	}
}
