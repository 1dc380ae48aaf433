package pv

import (
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// shrink makes a failing message smaller while it keeps failing in the same
// way.
func (d *Driver) shrink(msg *Msg, m proto.Message, nils []Nil, kind, detail string) (proto.Message, []Nil, string, string) {
	budget := 3000
	fails := func(c proto.Message, ns []Nil) bool {
		if budget <= 0 {
			return false
		}
		budget--
		k, s, _, _ := d.one(msg, c, ns)
		if kind == "nil" {
			k, s = d.CheckNil(msg, c)
		}
		if k == kind {
			detail = s
			return true
		}
		return false
	}
	cur := proto.Clone(m)
	for i := 0; i < len(nils); {
		rest := append(append([]Nil(nil), nils[:i]...), nils[i+1:]...)
		if fails(cur, rest) {
			nils = rest
		} else {
			i++
		}
	}
	for changed := true; changed && budget > 0; {
		changed = false
		n := countEdits(cur.ProtoReflect())
		for i := 0; i < n && budget > 0; i++ {
			c := proto.Clone(cur)
			k := i
			if !edit(c.ProtoReflect(), &k) {
				break
			}
			if proto.Equal(c, cur) {
				continue
			}
			if fails(c, nils) {
				cur = c
				changed = true
				n = countEdits(cur.ProtoReflect())
				i--
			}
		}
	}
	return cur, nils, kind, detail
}

func countEdits(m protoreflect.Message) int {
	k := 1 << 30
	edit(m, &k)
	return 1<<30 - k
}

// edit applies simplification number *k to m. The numbering is fixed by the
// message; true means one was applied.
func edit(m protoreflect.Message, k *int) bool {
	if !m.IsValid() {
		return false
	}
	hit := func() bool { *k--; return *k == -1 }
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if !m.Has(fd) {
			continue
		}
		if hit() {
			m.Clear(fd)
			return true
		}
		switch {
		case fd.IsList():
			l := m.Mutable(fd).List()
			for j := 0; j < l.Len(); j++ {
				if hit() {
					for x := j; x+1 < l.Len(); x++ {
						l.Set(x, l.Get(x+1))
					}
					l.Truncate(l.Len() - 1)
					return true
				}
				if fd.Message() != nil {
					if edit(l.Get(j).Message(), k) {
						return true
					}
					continue
				}
				for _, v := range simpler(fd, l.Get(j)) {
					if hit() {
						l.Set(j, v)
						return true
					}
				}
			}
		case fd.IsMap():
			mp := m.Mutable(fd).Map()
			keys := sortedKeys(mp)
			for _, key := range keys {
				if hit() {
					mp.Clear(key)
					return true
				}
				if fd.MapValue().Message() != nil {
					if edit(mp.Get(key).Message(), k) {
						return true
					}
				} else {
					for _, v := range simpler(fd.MapValue(), mp.Get(key)) {
						if hit() {
							mp.Set(key, v)
							return true
						}
					}
				}
			}
		case fd.Message() != nil:
			if edit(m.Mutable(fd).Message(), k) {
				return true
			}
		default:
			for _, v := range simpler(fd, m.Get(fd)) {
				if hit() {
					m.Set(fd, v)
					return true
				}
			}
		}
	}
	return false
}

func sortedKeys(mp protoreflect.Map) []protoreflect.MapKey {
	var out []protoreflect.MapKey
	mp.Range(func(k protoreflect.MapKey, _ protoreflect.Value) bool {
		out = append(out, k)
		return true
	})
	for i := range out {
		for j := i; j > 0 && out[j].String() < out[j-1].String(); j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func simpler(fd protoreflect.FieldDescriptor, v protoreflect.Value) []protoreflect.Value {
	var out []protoreflect.Value
	switch fd.Kind() {
	case protoreflect.StringKind:
		rs := []rune(v.String())
		if n := len(rs); n > 0 {
			out = append(out, protoreflect.ValueOfString(string(rs[:n/2])), protoreflect.ValueOfString(string(rs[n-n/2:])),
				protoreflect.ValueOfString(string(rs[1:])), protoreflect.ValueOfString(string(rs[:n-1])))
			for i, r := range rs {
				if r != 'a' && i < 40 {
					c := append([]rune(nil), rs...)
					c[i] = 'a'
					out = append(out, protoreflect.ValueOfString(string(c)))
				}
			}
		}
	case protoreflect.BytesKind:
		b := v.Bytes()
		if n := len(b); n > 0 {
			out = append(out, protoreflect.ValueOfBytes(append([]byte(nil), b[:n/2]...)), protoreflect.ValueOfBytes(append([]byte(nil), b[1:]...)), protoreflect.ValueOfBytes(append([]byte(nil), b[:n-1]...)))
		}
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		if x := v.Int(); x != 0 {
			for _, y := range ints(x) {
				out = append(out, protoreflect.ValueOfInt32(int32(y)))
			}
		}
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		if x := v.Int(); x != 0 {
			for _, y := range ints(x) {
				out = append(out, protoreflect.ValueOfInt64(y))
			}
		}
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		if x := v.Uint(); x != 0 {
			out = append(out, protoreflect.ValueOfUint32(0), protoreflect.ValueOfUint32(uint32(x/2)), protoreflect.ValueOfUint32(uint32(x-1)))
		}
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		if x := v.Uint(); x != 0 {
			out = append(out, protoreflect.ValueOfUint64(0), protoreflect.ValueOfUint64(x/2), protoreflect.ValueOfUint64(x-1))
		}
	}
	return out
}

func ints(x int64) []int64 {
	out := []int64{0, x / 2}
	if x > 0 {
		out = append(out, x-1)
	} else {
		out = append(out, x+1)
	}
	return out
}

// smallerMsgs are the messages one edit away from m.
func smallerMsgs(m proto.Message) []proto.Message {
	var out []proto.Message
	n := countEdits(m.ProtoReflect())
	for i := 0; i < n && len(out) < 500; i++ {
		c := proto.Clone(m)
		k := i
		if !edit(c.ProtoReflect(), &k) {
			break
		}
		if !proto.Equal(c, m) {
			out = append(out, c)
		}
	}
	return out
}
