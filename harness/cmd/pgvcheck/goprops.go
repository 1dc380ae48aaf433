package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"verif/harness/pv"
)

// replayers run a recorded failure again; "" means it is gone.
var replayers = map[string]func(e *Env, v *Replay) string{}

func init() {
	replayers["go-case"] = replayGoCase
	replayers["go-gen"] = func(e *Env, v *Replay) string {
		if g := e.goGenOne(v.Schema); g != nil {
			return g.Stage + ": " + g.Text
		}
		return ""
	}
}

// goModel compares the generated Go code of random schemas with the
// reference interpreter.
func goModel(schema, mode string, q, t goSize) func(e *Env, r *Report) {
	return func(e *Env, r *Report) {
		sz := q
		if e.thorough() {
			sz = t
		}
		r.Rule = "A case is one generated message of one generated message type, judged by the generated Validate and ValidateAll and by the reference interpreter. It is non-trivial if at least one field is set or one rule is violated, and distinct by type, wire bytes and nil elements."
		for round := 0; round < sz.rounds; round++ {
			seed := e.Seed*1009 + int64(round)
			s := pv.BuildSchema(schema, seed, sz.scale)
			e.goRound(r, s, mode, seed, sz.per)
			if len(r.Viols) > 0 {
				return
			}
		}
	}
}

type goSize struct{ rounds, scale, per int }

// goRound generates, compiles and drives one schema.
func (e *Env) goRound(r *Report, s *pv.Schema, mode string, seed int64, per int) {
	w := e.newW("go")
	defer w.remove()
	w.goMod()
	w.writeProtos(s)
	r.count("generated", "proto files", len(s.Files))
	if bad := w.generate(s, "go"); len(bad) > 0 {
		e.reportGen(r, s, bad)
		return
	}
	w.writeMain(s)
	if g := w.buildDriver(); g != nil {
		bad := w.compileAll()
		if len(bad) == 0 {
			panic(broken{fmt.Errorf("the driver does not build: %s", g.Text)})
		}
		e.reportGen(r, s, bad)
		return
	}
	res := w.drive("-mode", mode, "-seed", fmt.Sprint(seed), "-per", fmt.Sprint(per))
	merge(r, &res.Stats)
	for i := range res.Failures {
		f := &res.Failures[i]
		v := &Replay{Kind: "go-case", Mode: mode, Detail: f.Kind + ": " + f.Detail, Text: f.Text, Rules: f.Rules, Seed: seed, Case: &f.Case}
		if f.Case.Msg == "" {
			v.Schema, v.Case = s, nil
			v.Args = []string{"-mode", mode, "-seed", fmt.Sprint(seed), "-per", fmt.Sprint(per)}
		} else {
			v.Schema = subset(s, f.Case.Msg)
		}
		r.fail(v)
	}
}

func (e *Env) reportGen(r *Report, s *pv.Schema, bad []*genErr) {
	sub, full, g := e.isolate(s, bad, e.goGenOne)
	v := &Replay{Kind: "go-gen", Detail: fmt.Sprintf("no Go code that compiles for %s (%s): %s", full, g.Stage, head(g.Text, 1500)), Schema: sub}
	if m := pv.NewReg(sub).Msgs[full]; m != nil {
		v.Rules = m.Text()
	}
	r.fail(v)
}

func merge(r *Report, s *pv.Stats) {
	r.Evaluations += s.Evaluations
	r.Distinct += s.Distinct
	for _, x := range s.Samples {
		r.sample(x)
	}
	for k, n := range s.ByRule {
		r.count("violated_rules", k, n)
	}
	for k, n := range s.ByTag {
		r.count("cases_by_class", k, n)
	}
	for k, n := range s.Extra {
		r.count("extra", k, n)
	}
	r.count("verdicts", "valid", s.Valid)
	r.count("verdicts", "invalid", s.Invalid)
	r.count("generated", "message types", s.MsgTypes)
	r.count("generated", "embedded violations", s.Nested)
	r.count("generated", "cases with nil elements", s.NilElems)
}

func replayGoCase(e *Env, v *Replay) string {
	w := e.newW("replay")
	defer w.remove()
	w.goMod()
	w.writeProtos(v.Schema)
	if bad := w.generate(v.Schema, "go"); len(bad) > 0 {
		return bad[0].Stage + ": " + bad[0].Text
	}
	w.writeMain(v.Schema)
	if g := w.buildDriver(); g != nil {
		return g.Stage + ": " + g.Text
	}
	args := v.Args
	if v.Case != nil {
		w.write("case.json", toJSON(v.Case))
		args = []string{"-mode", v.Mode, "-replay", filepath.Join(w.dir, "case.json")}
	}
	res := w.drive(args...)
	for _, f := range res.Failures {
		return f.Kind + ": " + f.Detail + "\n    message: " + f.Text + "\n    " + strings.ReplaceAll(f.Rules, "\n", "\n    ")
	}
	return ""
}
