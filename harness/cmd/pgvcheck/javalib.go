package main

import (
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verif/harness/pv"
)

// libRun calls the Java library and gives the answers; if the process dies,
// those before, and how it died.
func (e *Env) libRun(cases []pv.JCase, id string) ([]string, string) {
	fi, fo := filepath.Join(e.Tmp, "lib-in-"+id), filepath.Join(e.Tmp, "lib-out-"+id)
	var b strings.Builder
	for _, c := range cases {
		b.WriteString(c.Line())
		b.WriteByte('\n')
	}
	must(os.WriteFile(fi, []byte(b.String()), 0o644), "write")
	os.Remove(fo)
	defer os.Remove(fi)
	defer os.Remove(fo)
	o := run(e.Tmp, nil, 10*time.Minute, nil, "java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xss4m", "-cp", e.javaLib(), "Lib", fi, fo)
	return readAnswers(fo, o)
}

// libBad says what is wrong with an answer.
func libBad(c pv.JCase, want, got string) string {
	text := ""
	if len(got) > 2 {
		b, err := hex.DecodeString(got[2:])
		must(err, "answer")
		text = string(b)
	}
	switch {
	case got[0] == 'E':
		return fmt.Sprintf("%s: %s", c, text)
	case want == "?":
		return ""
	case got[0] == 'S':
		if text != want {
			return fmt.Sprintf("%s answers %s, want %s", c, text, want)
		}
	case got[0] == 'T' && want != "T":
		return fmt.Sprintf("%s accepts the value", c)
	case got[0] == 'F' && want != "F":
		return fmt.Sprintf("%s throws a ValidationException: %s", c, text)
	}
	return ""
}

func javaLibCheck(e *Env, r *Report) {
	r.Rule = "A case is one call of a class of the Java validation library, or one script of calls of its indexes, with generated arguments, compared with the reference. It is non-trivial if the reference has a verdict about it, and distinct by operation and arguments."
	r.Assumptions = []string{"the stand-ins in harness/java/stub for commons-validator, re2j, guava and protobuf-java: formats are compared on plain cases only", "NaN and -0.0, range rules with equal bounds and negative within durations are not specified"}
	e.javaLib()
	per := e.pick(40000, 600000)
	const chunk = 20000
	var mu sync.Mutex
	seen := map[uint64]bool{}
	parallel(16, func(lot int) {
		g := pv.NewG(e.Seed*100019 + int64(lot))
		for done := 0; done < per; done += chunk {
			var cases []pv.JCase
			var wants []string
			for len(cases) < chunk {
				c, w := g.JavaCase()
				cases, wants = append(cases, c), append(wants, w)
			}
			got, bad := e.libRun(cases, fmt.Sprint(lot))
			worst := map[string]int{} // the shortest failing case of an operation
			if bad == "" && len(got) != len(cases) {
				panic(broken{fmt.Errorf("%d answers to %d calls", len(got), len(cases))})
			}
			for i := range got {
				if libBad(cases[i], wants[i], got[i]) != "" {
					if j, ok := worst[cases[i].Op]; !ok || len(cases[i].Line()) < len(cases[j].Line()) {
						worst[cases[i].Op] = i
					}
				}
			}
			mu.Lock()
			r.Evaluations += len(got)
			for i := range got {
				c := cases[i]
				r.count("calls", c.Op, 1)
				if wants[i] == "?" {
					r.count("verdict", "not specified", 1)
					continue
				}
				h := fnv.New64a()
				h.Write([]byte(c.Line()))
				if k := h.Sum64(); !seen[k] {
					seen[k] = true
					r.Distinct++
					v := wants[i]
					if c.Type == "script" {
						v = "script"
					}
					r.count("verdict", v, 1)
					if len(seen)%7001 == 17 {
						r.sample(fmt.Sprintf("%s = %s", c, wants[i]))
					}
				}
			}
			for _, i := range worst {
				if len(r.Viols) < 3 {
					r.fail(&Replay{Kind: "java-lib", Detail: libBad(cases[i], wants[i], got[i]), Args: append([]string{wants[i], cases[i].Op, cases[i].Type}, cases[i].Args...)})
				}
			}
			if bad != "" && len(got) < len(cases) {
				c := cases[len(got)]
				r.fail(&Replay{Kind: "java-lib", Detail: fmt.Sprintf("%s: %s", c, bad), Args: append([]string{wants[len(got)], c.Op, c.Type}, c.Args...)})
			}
			stop := len(r.Viols) > 0
			mu.Unlock()
			if stop {
				return
			}
		}
	})
}

func init() {
	replayers["java-lib"] = func(e *Env, v *Replay) string {
		c := pv.JCase{Op: v.Args[1], Type: v.Args[2], Args: v.Args[3:]}
		got, bad := e.libRun([]pv.JCase{c}, "replay")
		if bad != "" || len(got) != 1 {
			return fmt.Sprintf("%s: %s", c, bad)
		}
		return libBad(c, v.Args[0], got[0])
	}
}
