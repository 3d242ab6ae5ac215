// Package ref is a small, independent reference model of the tokenization pipeline,
// written from its specification. The monitors compare the real code with it.
package ref

import (
	"regexp"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/text/unicode/norm"
)

// Ch is one character of a normalized text and the range of bytes of the original text it comes from.
type Ch struct {
	R    rune
	S, E int
}

// Str is a normalized text aligned to its original.
type Str []Ch

// New aligns a text with itself. The text must be valid UTF-8.
func New(s string) Str {
	var out Str
	for i, r := range s {
		out = append(out, Ch{r, i, i + len(string(r))})
	}
	return out
}

func (s Str) String() string {
	var b strings.Builder
	for _, c := range s {
		b.WriteRune(c.R)
	}
	return b.String()
}

// Aligns gives the original range of every byte of the normalized text.
func (s Str) Aligns() [][]int {
	var out [][]int
	for _, c := range s {
		for i := 0; i < len(string(c.R)); i++ {
			out = append(out, []int{c.S, c.E})
		}
	}
	return out
}

// Piece is a part of the text after a split.
type Piece struct {
	S   Str
	Tok *Tok // set for a piece that is an added token
}

// Tok is a token of a model: its offsets are bytes of the text it was given.
type Tok struct {
	Id    int
	Value string
	S, E  int
}

// Norm is a normalization.
type Norm func(Str) Str

func MapR(f func(rune) rune) Norm {
	return func(s Str) Str {
		out := make(Str, 0, len(s))
		for _, c := range s {
			out = append(out, Ch{f(c.R), c.S, c.E})
		}
		return out
	}
}

func FilterR(keep func(rune) bool) Norm {
	return func(s Str) Str {
		var out Str
		for _, c := range s {
			if keep(c.R) {
				out = append(out, c)
			}
		}
		return out
	}
}

var Lowercase = MapR(unicode.ToLower)
var Uppercase = MapR(unicode.ToUpper)
var StripAccents = FilterR(func(r rune) bool { return !unicode.Is(unicode.Mn, r) })

func Strip(left, right bool) Norm {
	return func(s Str) Str {
		if left {
			for len(s) > 0 && unicode.IsSpace(s[0].R) {
				s = s[1:]
			}
		}
		if right {
			for len(s) > 0 && unicode.IsSpace(s[len(s)-1].R) {
				s = s[:len(s)-1]
			}
		}
		return s
	}
}

func Prepend(p string) Norm {
	return func(s Str) Str {
		if len(s) == 0 {
			return s
		}
		var out Str
		for _, r := range p {
			out = append(out, Ch{r, s[0].S, s[0].E})
		}
		return append(out, s...)
	}
}

func Append(p string) Norm {
	return func(s Str) Str {
		if len(s) == 0 {
			return s
		}
		out := append(Str{}, s...)
		l := s[len(s)-1]
		for _, r := range p {
			out = append(out, Ch{r, l.S, l.E})
		}
		return out
	}
}

// Form is a Unicode normalization form: the content is what golang.org/x/text gives for
// the whole text; each character of a combining sequence is aligned within that sequence.
func Form(f norm.Form) Norm {
	dec := norm.NFD
	if f == norm.NFKC || f == norm.NFKD {
		dec = norm.NFKD
	}
	return func(s Str) Str {
		text := s.String()
		if f.IsNormalString(text) {
			return s
		}
		var out Str
		var it norm.Iter
		it.InitString(f, text)
		pos := 0 // rune index in s
		for !it.Done() {
			b := it.Pos()
			o := []rune(string(it.Next()))
			for it.Pos() == b && !it.Done() { // a character that gives several sequences
				o = append(o, []rune(string(it.Next()))...)
			}
			n := len([]rune(text[b:it.Pos()]))
			seg := s[pos : pos+n]
			pos += n
			var by []int // which char of the segment each decomposed char comes from
			for i, c := range seg {
				for range []rune(dec.String(string(c.R))) {
					by = append(by, i)
				}
			}
			for i, r := range o {
				j := min(i, n-1)
				if len(by) == len(o) {
					j = by[i]
				}
				out = append(out, Ch{r, seg[j].S, seg[j].E})
			}
		}
		return out
	}
}

// SegmentBounds gives, for each character of s, the range of original bytes of the
// combining sequence (of the form's segmentation) it belongs to.
func SegmentBounds(s Str, f norm.Form) (segs [][2]int, texts []string) {
	text := s.String()
	var it norm.Iter
	it.InitString(f, text)
	pos := 0
	for !it.Done() {
		b := it.Pos()
		o := string(it.Next())
		for it.Pos() == b && !it.Done() {
			o += string(it.Next())
		}
		n := len([]rune(text[b:it.Pos()]))
		segs = append(segs, [2]int{s[pos].S, s[pos+n-1].E})
		texts = append(texts, o)
		pos += n
	}
	return
}

// Shift moves the origins of a text.
func (s Str) Shift(d int) Str {
	out := append(Str{}, s...)
	for i := range out {
		out[i].S, out[i].E = out[i].S+d, out[i].E+d
	}
	return out
}

func (s Str) norm(n Norm) Str { return n(s) }

// Match is a range of characters of a text, found or not by a pattern.
type Match struct {
	S, E int // characters
	M    bool
}

// Pattern cuts a text into matches and what lies between them.
type Pattern func(s Str) []Match

func fill(n int, ms [][2]int) []Match {
	var out []Match
	at := 0
	for _, m := range ms {
		if at < m[0] {
			out = append(out, Match{at, m[0], false})
		}
		out = append(out, Match{m[0], m[1], true})
		at = m[1]
	}
	if at < n {
		out = append(out, Match{at, n, false})
	}
	return out
}

// FnPat matches every single character fn is true for.
func FnPat(fn func(rune) bool) Pattern {
	return func(s Str) []Match {
		var ms [][2]int
		for i, c := range s {
			if fn(c.R) {
				ms = append(ms, [2]int{i, i + 1})
			}
		}
		return fill(len(s), ms)
	}
}

// RunPat matches every longest run of characters fn is true for.
func RunPat(fn func(rune) bool) Pattern {
	return func(s Str) []Match {
		var ms [][2]int
		for i := 0; i < len(s); {
			if !fn(s[i].R) {
				i++
				continue
			}
			j := i
			for j < len(s) && fn(s[j].R) {
				j++
			}
			ms = append(ms, [2]int{i, j})
			i = j
		}
		return fill(len(s), ms)
	}
}

// RePat matches what the regular expression matches, which may be empty.
func RePat(re *regexp.Regexp) Pattern {
	return func(s Str) []Match {
		text := s.String()
		at := map[int]int{len(text): len(s)}
		b := 0
		for i, c := range s {
			at[b] = i
			b += utf8.RuneLen(c.R)
		}
		var ms [][2]int
		for _, m := range re.FindAllStringIndex(text, -1) {
			ms = append(ms, [2]int{at[m[0]], at[m[1]]})
		}
		return fill(len(s), ms)
	}
}

// StrPat matches every occurrence of lit, from left to right, without overlap.
func StrPat(lit string) Pattern {
	l := []rune(lit)
	return func(s Str) []Match {
		var ms [][2]int
		for i := 0; len(l) > 0 && i+len(l) <= len(s); {
			ok := true
			for k := range l {
				if s[i+k].R != l[k] {
					ok = false
					break
				}
			}
			if ok {
				ms = append(ms, [2]int{i, i + len(l)})
				i += len(l)
			} else {
				i++
			}
		}
		return fill(len(s), ms)
	}
}

func InvPat(p Pattern) Pattern {
	return func(s Str) []Match {
		ms := p(s)
		out := make([]Match, len(ms))
		for i, m := range ms {
			out[i] = Match{m.S, m.E, !m.M}
		}
		return out
	}
}

// Behaviors of a split.
const (
	Removed = iota
	Isolated
	MergedWithPrevious
	MergedWithNext
	Contiguous
)

// SplitBy cuts a text by the matches of a pattern.
func SplitBy(s Str, p Pattern, behavior int) []Str {
	ms := p(s)
	var parts [][2]int
	switch behavior {
	case Removed:
		for _, m := range ms {
			if !m.M {
				parts = append(parts, [2]int{m.S, m.E})
			}
		}
	case Isolated:
		for _, m := range ms {
			parts = append(parts, [2]int{m.S, m.E})
		}
	case MergedWithPrevious:
		for i, m := range ms {
			if m.M && i > 0 && !ms[i-1].M {
				parts[len(parts)-1][1] = m.E
			} else {
				parts = append(parts, [2]int{m.S, m.E})
			}
		}
	case MergedWithNext:
		for i, m := range ms {
			if !m.M && i > 0 && ms[i-1].M {
				parts[len(parts)-1][1] = m.E
			} else {
				parts = append(parts, [2]int{m.S, m.E})
			}
		}
	case Contiguous:
		for i, m := range ms {
			if i > 0 && ms[i-1].M == m.M {
				parts[len(parts)-1][1] = m.E
			} else {
				parts = append(parts, [2]int{m.S, m.E})
			}
		}
	}
	var out []Str
	for _, p := range parts {
		out = append(out, s[p[0]:p[1]])
	}
	return out
}

// Replace puts content in the place of every match, aligned to the last character it replaces.
func Replace(p Pattern, content string) Norm {
	return func(s Str) Str {
		var out Str
		for _, m := range p(s) {
			if !m.M {
				out = append(out, s[m.S:m.E]...)
				continue
			}
			l := s[m.E-1]
			for _, r := range content {
				out = append(out, Ch{r, l.S, l.E})
			}
		}
		return out
	}
}

func Seq(ns ...Norm) Norm {
	return func(s Str) Str {
		for _, n := range ns {
			s = n(s)
		}
		return s
	}
}

// BertSpace, BertControl and BertPunct are the character classes of BERT.
func BertSpace(r rune) bool { return r == ' ' || r == '\t' || r == '\n' || r == '\r' }

func BertControl(r rune) bool {
	if r == '\t' || r == '\n' || r == '\r' {
		return false
	}
	return unicode.In(r, unicode.Cc, unicode.Cf)
}

func Punct(r rune) bool {
	return r >= 33 && r <= 47 || r >= 58 && r <= 64 || r >= 91 && r <= 96 || r >= 123 && r <= 126 || unicode.IsPunct(r)
}

func CJK(r rune) bool {
	for _, x := range [][2]rune{{0x4e00, 0x9fff}, {0x3400, 0x4dbf}, {0xf900, 0xfaff}, {0x20000, 0x2a6df}, {0x2a700, 0x2b73f}, {0x2b740, 0x2b81f}, {0x2b820, 0x2ceaf}, {0x2f800, 0x2fa1f}} {
		if r >= x[0] && r <= x[1] {
			return true
		}
	}
	return false
}

// Bert is the normalization of BERT.
func Bert(clean, lower, chinese, accents bool) Norm {
	return func(s Str) Str {
		if clean {
			s = FilterR(func(r rune) bool { return r != 0 && r != 0xfffd && !BertControl(r) })(s)
			s = MapR(func(r rune) rune {
				if BertSpace(r) {
					return ' '
				}
				return r
			})(s)
		}
		if chinese {
			var out Str
			var prev Ch // at the start of the text there is none
			for i, c := range s {
				if i > 0 {
					prev = s[i-1]
				}
				if CJK(c.R) {
					out = append(out, Ch{' ', prev.S, prev.E}, c, Ch{' ', c.S, c.E})
				} else {
					out = append(out, c)
				}
			}
			s = out
		}
		if accents {
			s = StripAccents(Form(norm.NFD)(s))
		}
		if lower {
			s = Lowercase(s)
		}
		return s
	}
}
