package pv

import (
	"bufio"
	"encoding/hex"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// What a back end outside this process may answer to a case.
const (
	WantTrue = 1 << iota
	WantFalse
	WantThrow
)

// wants is the set of answers the rules allow, with the violations, and the
// names an error text has one of.
func (d *Driver) wants(msg *Msg, m proto.Message) (int, []Viol, []string) {
	raw := d.md.Eval(msg, m.ProtoReflect())
	viols, unimpl, maybe := split(raw)
	w := WantTrue
	if len(viols) > 0 {
		w = WantFalse
	} else if maybe {
		w |= WantFalse
	}
	if unimpl {
		w = w&WantFalse | WantThrow
	} else if d.md.CC && d.md.mayRefuse(msg, map[string]bool{}) {
		w |= WantThrow
	}
	if d.md.Py {
		return w, viols, pyNames(raw, nil)
	}
	if d.md.Java {
		return w, viols, javaNames(raw, nil)
	}
	return w, viols, ccNames(msg, viols)
}

// javaNames: the full name of the innermost field, and a colon.
func javaNames(l []Viol, out []string) []string {
	for _, v := range l {
		if v.Cause != nil {
			out = javaNames(v.Cause, out)
			continue
		}
		out = append(out, "."+v.Full+": ")
	}
	return out
}

// pyNames: the innermost field, or what a loop over elements calls them.
func pyNames(l []Viol, out []string) []string {
	for _, v := range l {
		if v.Cause != nil {
			out = pyNames(v.Cause, out)
			continue
		}
		out = append(out, v.Full[strings.LastIndexByte(v.Full, '.')+1:])
		if v.Key {
			out = append(out, "key")
		} else if strings.Contains(v.Field, "[") {
			out = append(out, "item")
		}
	}
	return out
}

// ccNames: the Go names of the fields of the message, or those of oneofs.
func ccNames(msg *Msg, viols []Viol) []string {
	var names []string
	for _, v := range viols {
		n := v.Field
		if i := strings.IndexByte(n, '['); i >= 0 {
			n = n[:i]
		}
		names = append(names, n)
		for _, o := range msg.Oneofs {
			if GoCamel(o.Name) == n {
				names = append(names, o.Name)
			}
		}
	}
	return names
}

// dumpLine: type name, wire bytes in hex, the allowed answers, the names of
// the fields an error can be about, and the violations.
func (d *Driver) dumpLine(msg *Msg, m proto.Message) (string, []Viol) {
	if closedEnum(m.ProtoReflect()) || proto.CheckInitialized(m) != nil {
		return "", nil
	}
	w, viols, names := d.wants(msg, m)
	b, err := proto.MarshalOptions{AllowPartial: true, Deterministic: true}.Marshal(m)
	if err != nil {
		return "", viols
	}
	clean := strings.NewReplacer("\n", " ", "\t", " ", "\r", " ")
	return fmt.Sprintf("%s\t%s\t%d\t%s\t%s\n", msg.full, hex.EncodeToString(b), w, strings.Join(names, ","), clean.Replace(violText(viols))), viols
}

// closedEnum tells whether a proto2 enum field has a number without a name,
// which other languages than Go take for an unknown field.
func closedEnum(m protoreflect.Message) bool {
	closed := false
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		one := func(fd protoreflect.FieldDescriptor, v protoreflect.Value) {
			if fd.Message() != nil {
				closed = closed || closedEnum(v.Message())
			}
			if e := fd.Enum(); e != nil && (fd.ParentFile().Syntax() == protoreflect.Proto2 || e.ParentFile().Syntax() == protoreflect.Proto2) {
				closed = closed || e.Values().ByNumber(v.Enum()) == nil
			}
		}
		switch {
		case fd.IsMap():
			v.Map().Range(func(_ protoreflect.MapKey, v protoreflect.Value) bool {
				one(fd.MapValue(), v)
				return true
			})
		case fd.IsList():
			for i := 0; i < v.List().Len(); i++ {
				one(fd, v.List().Get(i))
			}
		default:
			one(fd, v)
		}
		return true
	})
	return closed
}

// Dump writes generated messages, one per line, for a back end that does not
// run in this process.
func (d *Driver) Dump(path string, perType int) error {
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	w := bufio.NewWriter(f)
	var names []string
	for n := range d.reg.Msgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		msg := d.reg.Msgs[n]
		if msg.Tag == "" || msg.Ignored {
			continue
		}
		d.res.Stats.MsgTypes++
		for i := 0; i < perType; i++ {
			m, err := newMsg(n)
			if err != nil {
				return err
			}
			if i > 0 {
				d.md.Now = time.Now()
				d.g.Fill(d.md, msg, m.ProtoReflect(), 3, []int{95, 80, 50, 20}[d.g.Intn(4)])
			}
			l, viols := d.dumpLine(msg, m)
			if l == "" {
				continue
			}
			d.note(msg, m, nil, viols)
			w.WriteString(l)
		}
	}
	if err := w.Flush(); err != nil {
		return err
	}
	return f.Close()
}

// Smaller writes the cases that are one step smaller than the given one, in
// the format of Dump, followed by a line with their text.
func (d *Driver) Smaller(c Case, path string) error {
	msg := d.reg.Msgs[c.Msg]
	m, err := newMsg(c.Msg)
	if err != nil {
		return err
	}
	b, err := hex.DecodeString(c.Wire)
	if err != nil {
		return err
	}
	if err := (proto.UnmarshalOptions{AllowPartial: true}).Unmarshal(b, m); err != nil {
		return err
	}
	d.md.Now = time.Now()
	var out strings.Builder
	put := func(m proto.Message) {
		if l, _ := d.dumpLine(msg, m); l != "" {
			out.WriteString(strings.TrimSuffix(l, "\n"))
			out.WriteString("\t" + strings.ReplaceAll(prototext.MarshalOptions{}.Format(m), "\n", " ") + "\n")
		}
	}
	put(m)
	for _, s := range smallerMsgs(m) {
		put(s)
	}
	return os.WriteFile(path, []byte(out.String()), 0o644)
}
