package main

import (
	"fmt"
	"math"
	"strings"

	"verif/harness/pv"
)

// The probes of the known findings: the smallest schemas, and messages, that
// show them.

func probeSchema(msgs ...*pv.Msg) *pv.Schema {
	for _, m := range msgs {
		m.Tag = "probe"
	}
	return &pv.Schema{Files: []*pv.File{{Name: "p/p.proto", Pkg: "p", GoPkg: "verifgen/p", Syntax: "proto3", Msgs: msgs}}}
}

func probeMsg(name string, fs ...*pv.Field) *pv.Msg {
	for i, f := range fs {
		f.Num = i + 1
	}
	return &pv.Msg{Name: name, Fields: fs}
}

func probeField(name, kind string, r *pv.Rules) *pv.Field {
	return &pv.Field{Name: name, Kind: kind, Rules: r}
}

// onWire: the generated code and the reference disagree about the message
// p.M with these bytes.
func onWire(f *pv.Field, wire string) func(e *Env) string {
	return func(e *Env) string {
		return replayGoCase(e, &Replay{Mode: "verdict", Schema: probeSchema(probeMsg("M", f)), Case: &pv.Case{Msg: "p.M", Wire: wire}})
	}
}

// noGo: there is no Go code that compiles.
func noGo(msgs ...*pv.Msg) func(e *Env) string {
	return func(e *Env) string {
		if g, discard := e.exoticOne(probeSchema(msgs...)); g != nil && !discard {
			return g.Stage + ": " + g.Text
		}
		return ""
	}
}

// inBack: the code of another language and the reference of Go disagree about
// the message p.M with these bytes, or the code does not compile.
func inBack(be *backEnd, wire string, f *pv.Field, rest ...interface{}) func(e *Env) string {
	return func(e *Env) string {
		s := probeSchema(probeMsg("M", f))
		for _, x := range rest {
			switch x := x.(type) {
			case *pv.Msg:
				s.Files[0].Msgs = append(s.Files[0].Msgs, x)
			case *pv.Enum:
				s.Files[0].Enums = append(s.Files[0].Enums, x)
			}
		}
		plain := *be
		plain.flags = append([]string{"-plain"}, be.flags...)
		return plain.replay(e, &Replay{Mode: "verdict", Schema: s, Case: &pv.Case{Msg: "p.M", Wire: wire}})
	}
}

// besidePb: the generated file is not beside that of protoc-gen-go.
func besidePb(goPkg, param string) func(e *Env) string {
	return func(e *Env) string {
		s := probeSchema(probeMsg("M", probeField("a", "int32", nil)))
		s.Files[0].GoPkg = goPkg
		w := e.newW("probe")
		defer w.remove()
		w.writeProtos(s)
		rs, g := w.reqSet(s)
		if g != nil {
			panic(broken{fmt.Errorf("%s", g.Text)})
		}
		want := plug(e.genGo, rs.request(rs.gen, param, nil))
		got := plug(e.plugin, rs.request(rs.gen, "lang=go,"+param, nil))
		if want.err != "" || got.err != "" {
			panic(broken{fmt.Errorf("%s%s", want.err, got.err)})
		}
		exp := map[string]string{}
		for n := range want.files {
			exp[strings.TrimSuffix(n, ".pb.go")+".pb.validate.go"] = ""
		}
		return diffSets(got.files, exp)
	}
}

var probeEnum = &pv.Enum{Name: "E", Vals: []pv.EnumVal{{Name: "E_Z", Num: 0}, {Name: "E_A", Num: 1}}}

func val(v pv.Val) *pv.Val { return &v }

var findings = map[string][]probe{
	"C01": {
		{"nan-bounds", onWire(probeField("a", "float", &pv.Rules{Type: "float", Gt: val(pv.FVal(0))}), "0d0000c07f")},
		{"inf-params", noGo(probeMsg("M", probeField("a", "double", &pv.Rules{Type: "double", Lt: val(pv.FVal(math.Inf(1)))})))},
	},
	"C02": {
		{"huge-len", noGo(probeMsg("M", probeField("a", "string", &pv.Rules{Type: "string", MaxLen: pv.P64(1 << 63)})))},
	},
	"C12": {
		{"long-duration", noGo(probeMsg("M", &pv.Field{Name: "a", Kind: "message", TypeName: "google.protobuf.Duration", Rules: &pv.Rules{Type: "duration", Lt: val(pv.DVal(9300000000, 0))}}))},
	},
	"C17": {
		{"m-param", besidePb("verifgen/p", "Mp/p.proto=example.com/other")},
	},
	"C18": {
		{"cc-pattern-whole", inBack(&ccBack, "0a03786178", probeField("a", "string", &pv.Rules{Type: "string", Pattern: val(pv.SVal("a"))}))},
	},
	"C23": {
		{"java-pattern-whole", inBack(&javaBack, "0a03786178", probeField("a", "string", &pv.Rules{Type: "string", Pattern: val(pv.SVal("a"))}))},
		{"java-negative-zero", inBack(&javaBack, "090000000000000080", probeField("a", "double", &pv.Rules{Type: "double", Const: val(pv.FVal(0))}))},
		{"java-nan", inBack(&javaBack, "09000000000000f87f", probeField("a", "double", &pv.Rules{Type: "double", Gt: val(pv.FVal(0))}))},
		{"java-undefined-enum", inBack(&javaBack, "0805", &pv.Field{Name: "a", Kind: "enum", TypeName: "p.E", Rules: &pv.Rules{Type: "enum", In: []pv.Val{pv.IVal(5)}}}, probeEnum)},
		{"java-huge-len", inBack(&javaBack, "0a0161", probeField("a", "string", &pv.Rules{Type: "string", MaxLen: pv.P64(1 << 31)}))},
		{"java-inf-params", inBack(&javaBack, "09000000000000f03f", probeField("a", "double", &pv.Rules{Type: "double", Lt: val(pv.FVal(math.Inf(1)))}))},
	},
	"C24": {
		{"py-keyword-field", inBack(&pyBack, "0805", probeField("from", "int32", &pv.Rules{Type: "int32", Gt: val(pv.IVal(0))}))},
		{"py-re2-syntax", inBack(&pyBack, "0a0161", probeField("a", "string", &pv.Rules{Type: "string", Pattern: val(pv.SVal("^\\pL$"))}))},
		{"py-dollar-newline", inBack(&pyBack, "0a02610a", probeField("a", "string", &pv.Rules{Type: "string", Pattern: val(pv.SVal("^a$"))}))},
		{"py-unicode-digits", inBack(&pyBack, "0a02d9a1", probeField("a", "string", &pv.Rules{Type: "string", Pattern: val(pv.SVal("^\\d$"))}))},
		{"py-inf-params", inBack(&pyBack, "09000000000000f03f", probeField("a", "double", &pv.Rules{Type: "double", Lt: val(pv.FVal(math.Inf(1)))}))},
	},
	"C25": {
		{"java-unique-enum", inBack(&javaBack, "0a020506", &pv.Field{Name: "a", Kind: "enum", Card: "repeated", TypeName: "p.E", Rules: &pv.Rules{Type: "repeated", Unique: pv.T()}}, probeEnum)},
	},
	"C26": {
		{"cc-validate", inBack(&ccBack, "", probeField("a", "int32", nil), probeMsg("Validate", probeField("a", "int32", nil)))},
	},
	"C16": {
		{"field-validate", noGo(probeMsg("M", probeField("validate", "int32", nil)))},
		{"error-type", noGo(probeMsg("M"), probeMsg("MValidationError"))},
		{"lookup-names", noGo(&pv.Msg{Name: "A", Fields: []*pv.Field{{Name: "B_C", Num: 1, Kind: "int32", Rules: &pv.Rules{Type: "int32", In: []pv.Val{pv.IVal(1)}}}}, Msgs: []*pv.Msg{probeMsg("B", probeField("C", "int32", &pv.Rules{Type: "int32", In: []pv.Val{pv.IVal(2)}}))}})},
	},
}
