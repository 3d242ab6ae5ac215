package ref

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// Dec turns a list of tokens into a list of texts; the decoding is their concatenation.
type Dec func(toks []string) []string

func each(f func(i, n int, t string) string) Dec {
	return func(toks []string) []string {
		out := []string{}
		for i, t := range toks {
			out = append(out, f(i, len(toks), t))
		}
		return out
	}
}

// subst replaces from left to right, without looking at what it has put in.
func subst(s, old, new string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		if old != "" && strings.HasPrefix(s[i:], old) {
			b.WriteString(new)
			i += len(old)
			continue
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}

// Cleanup takes back what tokenization of English does to spaces.
func Cleanup(s string) string {
	for _, p := range [][2]string{{" .", "."}, {" ?", "?"}, {" !", "!"}, {" ,", ","}, {" ' ", "'"}, {" n't", "n't"}, {" 'm", "'m"},
		{" do not", " don't"}, {" 's", "'s"}, {" 've", "'ve"}, {" 're", "'re"}} {
		s = subst(s, p[0], p[1])
	}
	return s
}

func BPEDec(suffix string) Dec {
	return each(func(i, n int, t string) string {
		if i == n-1 {
			return subst(t, suffix, "")
		}
		return subst(t, suffix, " ")
	})
}

func WordPieceDec(prefix string, clean bool) Dec {
	return each(func(i, n int, t string) string {
		if i > 0 {
			if strings.HasPrefix(t, prefix) {
				t = t[len(prefix):]
			} else {
				t = " " + t
			}
		}
		if clean {
			t = Cleanup(t)
		}
		return t
	})
}

func ByteLevelDec() Dec {
	return each(func(i, n int, t string) string {
		var b []byte
		for _, c := range []rune(t) {
			x, ok := CharByte[c]
			if !ok {
				return t
			}
			b = append(b, x)
		}
		return string(b)
	})
}

func hexVal(c byte) int {
	return strings.IndexByte("0123456789abcdef", c|0x20*b2(c >= 'A'))
}

func b2(b bool) byte {
	if b {
		return 1
	}
	return 0
}

// byteTok is the byte that a token like <0x0A> stands for.
func byteTok(t string) (byte, bool) {
	if len(t) != 6 || t[:3] != "<0x" || t[5] != '>' {
		return 0, false
	}
	h, l := hexVal(t[3]), hexVal(t[4])
	if h < 0 || l < 0 {
		return 0, false
	}
	return byte(h<<4 | l), true
}

func ByteFallbackDec(toks []string) []string {
	out := []string{}
	for i := 0; i < len(toks); {
		var b []byte
		for ; i < len(toks); i++ {
			x, ok := byteTok(toks[i])
			if !ok {
				break
			}
			b = append(b, x)
		}
		if len(b) > 0 {
			if utf8.Valid(b) {
				out = append(out, string(b))
			} else {
				for range b {
					out = append(out, "\ufffd")
				}
			}
			continue
		}
		out = append(out, toks[i])
		i++
	}
	return out
}

func MetaspaceDec(rep rune, prefix bool) Dec {
	return each(func(i, n int, t string) string {
		var b strings.Builder
		for len(t) > 0 {
			c, k := utf8.DecodeRuneInString(t)
			switch {
			case c == rep && i == 0 && prefix:
			case c == rep:
				b.WriteByte(' ')
			default:
				b.WriteString(t[:k])
			}
			t = t[k:]
		}
		return b.String()
	})
}

func CTCDec(pad, delim string, clean bool) Dec {
	return func(toks []string) []string {
		out := []string{}
		for i, t := range toks {
			if i > 0 && t == toks[i-1] {
				continue
			}
			t = subst(t, pad, "")
			if clean {
				t = subst(Cleanup(t), delim, " ")
			}
			if t != "" {
				out = append(out, t)
			}
		}
		return out
	}
}

func FuseDec(toks []string) []string {
	s := ""
	for _, t := range toks {
		s += t
	}
	return []string{s}
}

// StripDec takes away up to start characters c at the front and up to stop at the back.
func StripDec(c string, start, stop int) Dec {
	return each(func(i, n int, t string) string {
		for k := 0; k < start && c != "" && strings.HasPrefix(t, c); k++ {
			t = t[len(c):]
		}
		for k := 0; k < stop && c != "" && strings.HasSuffix(t, c); k++ {
			t = t[:len(t)-len(c)]
		}
		return t
	})
}

func ReplaceDec(p Pattern, content string) Dec {
	return each(func(i, n int, t string) string {
		var at []int // where characters, or broken parts of them, begin
		for i := range t {
			at = append(at, i)
		}
		at = append(at, len(t))
		var b strings.Builder
		for _, m := range p(New(t)) {
			if m.M {
				b.WriteString(content)
			} else {
				b.WriteString(t[at[m.S]:at[m.E]])
			}
		}
		return b.String()
	})
}

func SeqDec(ds ...Dec) Dec {
	return func(toks []string) []string {
		for _, d := range ds {
			toks = d(toks)
		}
		return toks
	}
}

// Decode is the text of ids: unknown ids are left out, special tokens when asked.
func (p *Pipe) Decode(ids []int, skip bool) string {
	toks := []string{}
	for _, id := range ids {
		if t, ok := p.Added.Name(id); ok && !(skip && p.Added.SpecialSet[t]) {
			toks = append(toks, t)
		}
	}
	if p.Dec == nil {
		return strings.Join(toks, " ")
	}
	return strings.Join(p.Dec(toks), "")
}

// ByteTok spells a byte as a token.
func ByteTok(b byte) string { return fmt.Sprintf("<0x%02X>", b) }
