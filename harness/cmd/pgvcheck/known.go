package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"strings"
)

// probe shows that a listed finding is still there: it returns what fails, or
// "" if it does not any more.
type probe struct {
	id string
	f  func(e *Env) string
}

func toJSON(v interface{}) string {
	b, err := json.Marshal(v)
	must(err, "json")
	return string(b)
}

// probes runs the probes of the findings that known-findings.txt lists for
// the property. Lines: "finding: property=<id> id=<slug> <what fails>" and
// "fixed: property=<id> <commit> <what failed>".
func (e *Env) probes(prop string, r *Report) {
	b, err := os.ReadFile(filepath.Join(e.Verif, "known-findings.txt"))
	must(err, "known findings")
	listed := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		f := strings.Fields(l)
		if len(f) > 2 && strings.HasPrefix(f[2], "id=") {
			listed[f[2][3:]] = strings.Join(f[3:], " ")
		}
	}
	for _, p := range findings[prop] {
		s := p.f(e)
		r.count("probes", p.id, 1)
		if s == "" {
			continue
		}
		if text, ok := listed[p.id]; ok {
			r.Known = append(r.Known, "id="+p.id+" "+text)
			continue
		}
		r.fail(&Replay{Kind: "probe", Args: []string{prop, p.id}, Detail: s})
	}
}

func init() {
	replayers["probe"] = func(e *Env, v *Replay) string {
		for _, p := range findings[v.Args[0]] {
			if p.id == v.Args[1] {
				return p.f(e)
			}
		}
		return ""
	}
}
