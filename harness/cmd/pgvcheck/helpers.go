package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/harness/pv"
)

var helperNames = map[byte]string{'p': "IsPrefix", 's': "IsSuffix", 'c': "Contains", 'n': "NotContains", '4': "IsIpv4", '6': "IsIpv6", 'i': "IsIp", 'h': "IsHostname", 'u': "Utf8Len"}

type hcase struct {
	op   byte
	a, b string
}

func (c hcase) String() string {
	if strings.IndexByte("pscn", c.op) >= 0 {
		return fmt.Sprintf("%s(%q, %q)", helperNames[c.op], c.a, c.b)
	}
	return fmt.Sprintf("%s(%q)", helperNames[c.op], c.a)
}

// buildHelpers compiles the driver of the C++ helpers with sanitizers.
func (e *Env) buildHelpers() string {
	bin := filepath.Join(e.Tmp, "helpers")
	o := run(e.Tmp, nil, 10*time.Minute, nil, "g++", "-std=c++14", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
		"-I", e.Repo, filepath.Join(e.Verif, "harness/cc/helpers.cc"), "-o", bin, "-lprotobuf", "-lpthread")
	if o.code != 0 {
		panic(broken{fmt.Errorf("compiling the driver of validate.h: %s", tail(o.both(), 3000))})
	}
	return bin
}

// runHelpers gives the results of the cases; if the process dies, those
// before the fatal case and its report.
func (e *Env) runHelpers(bin string, cases []hcase, id string) ([]int64, string) {
	var in bytes.Buffer
	for _, c := range cases {
		in.WriteByte(c.op)
		binary.Write(&in, binary.LittleEndian, uint32(len(c.a)))
		binary.Write(&in, binary.LittleEndian, uint32(len(c.b)))
		in.WriteString(c.a)
		in.WriteString(c.b)
	}
	fi, fo := filepath.Join(e.Tmp, "h-in-"+id), filepath.Join(e.Tmp, "h-out-"+id)
	must(os.WriteFile(fi, in.Bytes(), 0o644), "write")
	os.Remove(fo)
	o := run(e.Tmp, []string{"ASAN_OPTIONS=detect_leaks=0:abort_on_error=0", "UBSAN_OPTIONS=print_stacktrace=1"}, 10*time.Minute, nil, bin, fi, fo)
	b, _ := os.ReadFile(fo)
	var out []int64
	for _, l := range strings.Fields(string(b)) {
		n, err := strconv.ParseInt(l, 10, 64)
		must(err, "result")
		out = append(out, n)
	}
	if o.code == 3 {
		panic(broken{fmt.Errorf("the driver of validate.h cannot read its input")})
	}
	if o.timeout {
		return out, "does not come back"
	}
	if o.code != 0 || len(out) != len(cases) {
		return out, "dies: " + head(o.both(), 1500)
	}
	return out, ""
}

// helperBad says what is wrong with a result.
func helperBad(c hcase, got int64) string {
	want, ok := pv.HelperWant(c.op, c.a, c.b)
	if got < 0 {
		return fmt.Sprintf("%s = %d: it changes its arguments", c, got)
	}
	if !ok {
		if c.op == 'u' && got > int64(len(c.a)) {
			return fmt.Sprintf("%s = %d, more than the bytes of the string", c, got)
		}
		return ""
	}
	if got != want {
		return fmt.Sprintf("%s = %d, want %d", c, got, want)
	}
	return ""
}

func (e *Env) tryHelper(bin string, c hcase, id string) string {
	got, bad := e.runHelpers(bin, []hcase{c}, id)
	if bad != "" {
		return fmt.Sprintf("%s %s", c, bad)
	}
	return helperBad(c, got[0])
}

// shrinkHelper drops bytes while the case keeps failing.
func (e *Env) shrinkHelper(bin string, c hcase, bad string) (hcase, string) {
	for tries := 0; tries < 400; {
		again := false
		for _, first := range []bool{true, false} {
			s := c.a
			if !first {
				s = c.b
			}
			for n := len(s) / 2; n >= 1 && !again; n /= 2 {
				for i := 0; i+n <= len(s) && !again && tries < 400; i += n {
					d := c
					if first {
						d.a = s[:i] + s[i+n:]
					} else {
						d.b = s[:i] + s[i+n:]
					}
					tries++
					if t := e.tryHelper(bin, d, "shrink"); t != "" {
						c, bad, again = d, t, true
					}
				}
			}
		}
		if !again {
			break
		}
	}
	return c, bad
}

func helpersCheck(e *Env, r *Report) {
	r.Rule = "A case is one call of a helper of validate.h with generated arguments, compared with the reference and run under AddressSanitizer and UndefinedBehaviorSanitizer. It is non-trivial if its arguments are not all empty, and distinct by helper and arguments."
	r.Assumptions = []string{"IPv6 texts of IPv4 addresses are compared for IsIp only: which of ipv4 and ipv6 takes them is not specified", "Utf8Len is exact on valid UTF-8 only; on other bytes it must return, read nothing outside the string and count no more than its bytes"}
	bin := e.buildHelpers()
	// 16 lots, so that a seed means the same on every machine
	per := e.pick(30000, 400000)
	var mu sync.Mutex
	parallel(16, func(lot int) {
		g := pv.NewG(e.Seed*100003 + int64(lot))
		seen := map[string]bool{}
		for done := 0; done < per; done += 10000 {
			var cases []hcase
			for i := 0; i < 10000; i++ {
				op := pv.HelperOps[g.Intn(len(pv.HelperOps))]
				if op == 'h' && g.P(50) { // slow
					op = 'u'
				}
				a, b := g.HelperCase(op)
				cases = append(cases, hcase{op, a, b})
			}
			got, bad := e.runHelpers(bin, cases, fmt.Sprint(lot))
			var fc *hcase
			what := ""
			for i := range got {
				if s := helperBad(cases[i], got[i]); s != "" {
					fc, what = &cases[i], s
					break
				}
			}
			if fc == nil && bad != "" {
				fc = &cases[min(len(got), len(cases)-1)]
				what = fmt.Sprintf("%s %s", *fc, bad)
			}
			mu.Lock()
			r.Evaluations += len(got)
			for i, n := range got {
				c := cases[i]
				r.count("calls", helperNames[c.op], 1)
				if k := fmt.Sprintf("%c%d %s%s", c.op, len(c.a), c.a, c.b); len(c.a)+len(c.b) > 0 && !seen[k] {
					seen[k] = true
					r.Distinct++
					if c.op != 'u' && n == 1 {
						r.count("true", helperNames[c.op], 1)
					}
					if len(seen)%5003 == 17 {
						r.sample(fmt.Sprintf("%s = %d", c, n))
					}
				}
			}
			stop := len(r.Viols) > 0
			mu.Unlock()
			if fc != nil {
				mu.Lock()
				defer mu.Unlock()
				if len(r.Viols) < 3 {
					c, s := e.shrinkHelper(bin, *fc, what)
					r.fail(&Replay{Kind: "cc-helper", Detail: s, Args: []string{string(c.op), hex.EncodeToString([]byte(c.a)), hex.EncodeToString([]byte(c.b))}})
				}
				return
			}
			if stop {
				return
			}
		}
	})
}

func init() {
	replayers["cc-helper"] = func(e *Env, v *Replay) string {
		a, err := hex.DecodeString(v.Args[1])
		must(err, "replay file")
		b, err := hex.DecodeString(v.Args[2])
		must(err, "replay file")
		return e.tryHelper(e.buildHelpers(), hcase{v.Args[0][0], string(a), string(b)}, "replay")
	}
}
