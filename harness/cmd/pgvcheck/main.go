// pgvcheck decides the properties of /verif/properties.jsonl.
//
//	pgvcheck C01            run the check of C01 (VERIF_SEED, VERIF_TIER)
//	pgvcheck replay FILE    run one recorded failure again
package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"verif/harness/pv"
)

// Replay is a recorded failure: enough to run it again.
type Replay struct {
	Property string
	Kind     string // go-case, go-gen, ... (see replay)
	Mode     string `json:",omitempty"`
	Detail   string
	Text     string            `json:",omitempty"`
	Rules    string            `json:",omitempty"`
	Seed     int64             `json:",omitempty"`
	Schema   *pv.Schema        `json:",omitempty"`
	Case     *pv.Case          `json:",omitempty"`
	Files    map[string]string `json:",omitempty"`
	Args     []string          `json:",omitempty"`
	Line     string            `json:",omitempty"`
}

// Report is what one check found.
type Report struct {
	Evaluations int
	Distinct    int
	Rule        string
	Samples     []string
	Extra       map[string]interface{}
	Assumptions []string
	Viols       []*Replay
	Known       []string
}

func (r *Report) sample(s string) {
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, head(s, 900))
	}
}

func (r *Report) set(k string, v interface{}) {
	if r.Extra == nil {
		r.Extra = map[string]interface{}{}
	}
	r.Extra[k] = v
}

func (r *Report) count(k, sub string, n int) {
	if r.Extra == nil {
		r.Extra = map[string]interface{}{}
	}
	m, _ := r.Extra[k].(map[string]int)
	if m == nil {
		m = map[string]int{}
		r.Extra[k] = m
	}
	m[sub] += n
}

func (r *Report) fail(v *Replay) {
	if len(r.Viols) < 5 {
		r.Viols = append(r.Viols, v)
	}
}

type check struct {
	run func(e *Env, r *Report)
}

func env() *Env {
	e := &Env{Repo: "/repo", Verif: "/verif", Tier: "quick", Seed: 1}
	if v := os.Getenv("VERIF_DIR"); v != "" {
		e.Verif = v
	}
	if v := os.Getenv("VERIF_REPO"); v != "" {
		e.Repo = v
	}
	if os.Getenv("VERIF_TIER") == "thorough" {
		e.Tier = "thorough"
	}
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		e.Seed = v
	}
	tmp, err := os.MkdirTemp(os.Getenv("PGV_TMP"), "pgv-check-")
	must(err, "temp dir")
	e.Tmp = tmp
	return e
}

func main() {
	os.Exit(realMain())
}

func realMain() (code int) {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: pgvcheck Cnn | replay FILE")
		return 3
	}
	defer func() {
		if r := recover(); r != nil {
			if b, ok := r.(broken); ok {
				fmt.Fprintln(os.Stderr, "pgvcheck: error of the check:", b.error)
				code = 3
				return
			}
			panic(r)
		}
	}()
	start := time.Now()
	e := env()
	defer os.RemoveAll(e.Tmp)
	if os.Args[1] == "replay" {
		return replayMain(e, os.Args[2])
	}
	prop := os.Args[1]
	c, ok := checks()[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "pgvcheck: no check for", prop)
		return 3
	}
	e.buildPlugin()
	r := &Report{}
	c.run(e, r)
	e.probes(prop, r)
	e.evidence(prop, r, time.Since(start))
	for _, k := range r.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	for _, v := range r.Viols {
		v.Property = prop
		fmt.Printf("%s: %s\n", prop, head(strings.ReplaceAll(v.Detail, "\n", "\n    "), 2500))
		if v.Rules != "" {
			fmt.Printf("    rules:   %s\n", head(strings.ReplaceAll(v.Rules, "\n", "\n      "), 2500))
		}
		if v.Text != "" {
			fmt.Printf("    message: %s\n", head(v.Text, 2500))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, e.saveReplay(v))
	}
	if len(r.Viols) > 0 {
		return 1
	}
	fmt.Printf("%s held: %d cases, %d distinct and non-trivial, %.1f s\n", prop, r.Evaluations, r.Distinct, time.Since(start).Seconds())
	return 0
}

func (e *Env) saveReplay(v *Replay) string {
	b, err := json.MarshalIndent(v, "", " ")
	must(err, "replay")
	h := sha256.Sum256(b)
	dir := filepath.Join(e.Verif, "replays")
	must(os.MkdirAll(dir, 0o755), "mkdir")
	p := filepath.Join(dir, v.Property+"-"+hex.EncodeToString(h[:6])+".json")
	must(os.WriteFile(p, b, 0o644), "replay")
	return p
}

func (e *Env) evidence(prop string, r *Report, wall time.Duration) {
	cov := map[string]interface{}{
		"evaluations":         r.Evaluations,
		"distinct_nontrivial": r.Distinct,
		"rule":                r.Rule,
		"samples":             r.Samples,
	}
	for k, v := range r.Extra {
		cov[k] = v
	}
	if r.Samples == nil {
		cov["samples"] = []string{}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": e.Tier, "seed": e.Seed, "level": "exploration",
		"coverage": cov, "wall_s": wall.Seconds(), "violations": len(r.Viols),
		"assumptions": r.Assumptions,
	}
	if r.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err, "evidence")
	dir := filepath.Join(e.Verif, "evidence")
	must(os.MkdirAll(dir, 0o755), "mkdir")
	must(os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644), "evidence")
}

func replayMain(e *Env, path string) int {
	b, err := os.ReadFile(path)
	must(err, "replay file")
	var v Replay
	must(json.Unmarshal(b, &v), "replay file")
	e.buildPlugin()
	f, ok := replayers[v.Kind]
	if !ok {
		must(fmt.Errorf("unknown kind %q", v.Kind), "replay file")
	}
	s := f(e, &v)
	if s == "" {
		fmt.Printf("%s: the recorded case holds now\n", v.Property)
		return 0
	}
	fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", v.Property, s, v.Property, path)
	return 1
}
