package pv

import (
	"strings"
	"unicode/utf8"
)

// HelperOps are the helpers of validate.h: IsPrefix, IsSuffix, Contains,
// NotContains, IsIpv4, IsIpv6, IsIp, IsHostname, Utf8Len.
const HelperOps = "pscn46ihu"

var ops2 = "pscn"

// HelperCase draws the arguments of a helper.
func (g *G) HelperCase(op byte) (string, string) {
	if strings.IndexByte(ops2, op) >= 0 {
		return g.twoStrings(op)
	}
	s := ""
	switch g.Intn(12) {
	case 0:
		s = string(g.raw(g.Intn(20)))
	case 1:
		s = g.str(12)
	case 2:
		s = g.ip6()
	case 3:
		s = g.ip4()
	case 4:
		s = g.hostname()
	default:
		switch op {
		case '4':
			s = g.ip4()
		case '6':
			s = g.ip6()
		case 'i':
			s = pick(g, []func() string{g.ip4, g.ip6})()
		case 'h':
			s = g.hostname()
		case 'u':
			s = g.utf8ish()
		}
	}
	switch g.Intn(14) {
	case 0:
		i := g.Intn(len(s) + 1)
		s = s[:i] + "\x00" + s[i:]
	case 1:
		s += pick(g, []string{"\x00", "\x00.", "\x00\x00abc", "\n", " ", "%1", "%eth0", "/8"})
	case 2:
		if len(s) > 0 {
			s = s[:g.Intn(len(s))]
		}
	case 3:
		if len(s) > 0 {
			b := []byte(s)
			b[g.Intn(len(b))] = byte(g.Intn(256))
			s = string(b)
		}
	case 4:
		if g.P(30) {
			s = strings.Repeat(s, 1+g.Intn(300))
		} else {
			s += s
		}
	}
	return s, ""
}

// utf8ish: runes of all lengths, sometimes with broken sequences.
func (g *G) utf8ish() string {
	var b strings.Builder
	broken := g.P(30)
	for n := g.Intn(pick(g, []int{3, 10, 40, 200})); n > 0; n-- {
		switch k := g.Intn(10); {
		case k < 3:
			b.WriteByte(byte(g.Intn(128)))
		case k < 5:
			b.WriteRune(rune(0x80 + g.Intn(0x780)))
		case k < 7:
			b.WriteRune(rune(0x800 + g.Intn(0xc000)))
		case k < 8:
			b.WriteRune(rune(0x10000 + g.Intn(0x100000)))
		case k < 9:
			b.WriteRune(pick(g, []rune{0, 0x7f, 0x80, 0x7ff, 0x800, 0xfffd, 0xffff, 0xd7ff, 0xe000, 0x10000, 0x10ffff}))
		default:
			if broken {
				b.Write(pick(g, [][]byte{{0xff}, {0xc0}, {0xe0, 0x80}, {0xf0, 0x9f}, {0x80}, {0xed, 0xa0, 0x80}, {0xf8}, {0xfc, 0x80}, {0xf4, 0x90, 0x80, 0x80}}))
			}
		}
	}
	s := b.String()
	if broken && len(s) > 0 && g.P(50) {
		s = s[:len(s)-1-g.Intn(min(3, len(s)))]
	}
	return s
}

func (g *G) twoStrings(op byte) (string, string) {
	text := func(n int) string {
		if g.P(25) {
			return string(g.raw(g.Intn(n + 1)))
		}
		return g.str(n)
	}
	hay := text(pick(g, []int{0, 3, 10, 40}))
	if g.P(20) {
		hay = strings.Repeat(pick(g, []string{"a", "ab", "aab", "\x00", "é"}), g.Intn(12))
	}
	need := ""
	n := len(hay)
	switch g.Intn(8) {
	case 0:
		need = text(4)
	case 1:
		need = hay
	case 2:
		need = hay + text(2)
	case 3:
		need = text(2) + hay
	case 4:
		i := g.Intn(n + 1)
		need = hay[:i]
	case 5:
		i := g.Intn(n + 1)
		need = hay[i:]
	default:
		i := g.Intn(n + 1)
		j := i + g.Intn(n-i+1)
		need = hay[i:j]
	}
	if g.P(15) && len(need) > 0 {
		b := []byte(need)
		i := g.Intn(len(b))
		b[i] ^= byte(1 << g.Intn(8))
		need = string(b)
	}
	if op == 'c' || op == 'n' {
		return hay, need
	}
	return need, hay
}

// HelperWant is what the helper has to return; ok is false if that is not
// specified.
func HelperWant(op byte, a, b string) (want int64, ok bool) {
	bit := func(v bool) int64 {
		if v {
			return 1
		}
		return 0
	}
	switch op {
	case 'p':
		return bit(strings.HasPrefix(b, a)), true
	case 's':
		return bit(strings.HasSuffix(b, a)), true
	case 'c':
		return bit(strings.Contains(a, b)), true
	case 'n':
		return bit(!strings.Contains(a, b)), true
	case '4':
		return bit(ipFamily(a) == 4), !V4Mapped(a)
	case '6':
		return bit(ipFamily(a) == 6), !V4Mapped(a)
	case 'i':
		return bit(ipFamily(a) != 0), true
	case 'h':
		return bit(Hostname(a)), true
	case 'u':
		return int64(utf8.RuneCountInString(a)), utf8.ValidString(a)
	}
	panic("no helper " + string(op))
}
