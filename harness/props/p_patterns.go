package props

import (
	"fmt"
	"math/rand"
	"reflect"
	"regexp"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/sugarme/tokenizer/normalizer"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "P33", Quick: 8000, Thorough: 300000,
		Rule: "each case asks random patterns of every kind (literals, characters, functions, regular expressions with and without empty matches, inverted once or more) for their matches in texts, not all of them UTF-8; pieces must follow each other and cover the text, and the matches be those of an independent search; non-trivial: at least one match and one gap",
		Run:  patterns})
	core.Register(&core.Prop{ID: "P34", Quick: 12000, Thorough: 200000,
		Rule: "each case is a history of splits, normalizations and tokenizations of a pre-tokenized string by functions of the user, some of which attach tokens to pieces; pieces, tokens and offsets after every step and the encoding at the end are compared with a reference; non-trivial: at least two pieces with tokens",
		Run:  preTokHistory})
}

// pat is a pattern and the byte ranges it has to match in a text.
type pat struct {
	name string
	real normalizer.Pattern
	find func(s string) [][2]int
	inv  bool
}

func byRune(f func(rune) bool) func(string) [][2]int {
	return func(s string) [][2]int {
		var out [][2]int
		for i := 0; i < len(s); {
			c, w := utf8.DecodeRuneInString(s[i:])
			if f(c) {
				out = append(out, [2]int{i, i + w})
			}
			i += w
		}
		return out
	}
}

var regexes = []string{`\s+`, `a*`, `\b`, `^`, `$`, `(ab|a)(c|bcd)?`, `.`, `(?s).+?`, `[^a-z]+`, `é|e`, `\p{Han}`, `x?`, `'s|'t|\p{L}+`, `(?i)TH`, `\s*\S`, `[[:punct:]]`}

func somePattern(r *rand.Rand) pat {
	var p pat
	switch r.Intn(4) {
	case 0:
		l := gen.Pick(r, "a", "aa", "aba", "in", " ", "  ", "é", "中", ".", "\\", "a+", "(", "##", "e\u0301", "😀", "\u0301", "")
		p = pat{fmt.Sprintf("string %q", l), normalizer.NewStringPattern(l), func(s string) [][2]int {
			var out [][2]int
			for at := 0; l != ""; {
				i := strings.Index(s[at:], l)
				if i < 0 {
					break
				}
				out = append(out, [2]int{at + i, at + i + len(l)})
				at += i + len(l)
			}
			return out
		}, false}
	case 1:
		ch := gen.Pick(r, 'a', ' ', 'é', '中', '.', '😀', '\u0301', 0, utf8.RuneError)
		p = pat{fmt.Sprintf("rune %q", ch), normalizer.NewRunePattern(ch), byRune(func(c rune) bool { return c == ch }), false}
	case 2:
		type fn struct {
			n string
			f func(rune) bool
		}
		x := gen.Pick(r, fn{"letter", unicode.IsLetter}, fn{"space", unicode.IsSpace}, fn{"odd", func(c rune) bool { return c%2 == 1 }},
			fn{"all", func(rune) bool { return true }}, fn{"none", func(rune) bool { return false }}, fn{"wide", func(c rune) bool { return c >= 0x10000 }})
		p = pat{"fn " + x.n, normalizer.NewFnPattern(x.f), byRune(x.f), false}
	default:
		e := gen.Pick(r, regexes...)
		re := regexp.MustCompile(e)
		p = pat{"regex " + e, normalizer.NewRegexpPattern(e), func(s string) [][2]int {
			var out [][2]int
			if s == "" {
				return nil
			}
			for _, m := range re.FindAllStringIndex(s, -1) {
				out = append(out, [2]int{m[0], m[1]})
			}
			return out
		}, false}
	}
	for r.Intn(3) == 0 {
		p.real, p.name, p.inv = normalizer.NewInvertPattern(p.real), "not "+p.name, !p.inv
	}
	return p
}

func patterns(c *core.C) {
	r := c.R
	for k := 0; k < 6 && !c.Failed(); k++ {
		p := somePattern(r)
		text := gen.Seldom(r, 80, "a", "aa", "aba", "th", "ab", "abcd")
		switch r.Intn(6) {
		case 0:
			text = strings.Repeat(gen.Pick(r, "a", "ab", "aba", " ", "é", "中"), r.Intn(6))
		case 1:
			b := []byte(text)
			for i := 1 + r.Intn(3); i > 0 && len(b) > 0; i-- {
				b[r.Intn(len(b))] = gen.Pick(r, byte(0x80), 0xff, 0xc3, 0xe4, 'a')
			}
			text = string(b)
		}
		desc := fmt.Sprintf("%s in %+q", p.name, text)
		c.Detail("%s", desc)
		want := p.find(text)
		c.Eval(desc, len(want) > 0 && (want[0][0] > 0 || want[len(want)-1][1] < len(text)))
		got := p.real.FindMatches(text)
		at := 0
		var ms [][2]int
		last := false
		for i, g := range got {
			if len(g.Offsets) != 2 || g.Offsets[0] != at || g.Offsets[1] < at || g.Offsets[1] > len(text) {
				c.Fail("cover", "piece %d is %v, the ones before end at %d: %s", i, g.Offsets, at, desc)
				return
			}
			m := g.Match != p.inv
			if m {
				ms = append(ms, [2]int{g.Offsets[0], g.Offsets[1]})
			} else if i > 0 && !last {
				c.Fail("gap", "two gaps in a row at %d: %s", at, desc)
				return
			}
			last = m
			at = g.Offsets[1]
		}
		if at != len(text) {
			c.Fail("cover", "the pieces end at %d of %d: %s", at, len(text), desc)
			return
		}
		if !reflect.DeepEqual(ms, want) {
			c.Fail("matches", "matches %v want %v: %s", ms, want, desc)
			return
		}
		c.NoteN("pieces seen", len(got))
		c.NoteN("matches seen", len(ms))
		c.Note("pattern: " + strings.Fields(p.name)[0])
	}
}

// ptPiece is a piece of the reference, with tokens (nil: not tokenized).
type ptPiece struct {
	s    ref.Str
	toks []tok
	lo   int // its part of the original
	hi   int
}

// normalize normalizes a piece as if there was nothing else.
func (q ptPiece) normalize(n ref.Norm) ref.Str {
	var rel, out ref.Str
	for _, x := range q.s {
		rel = append(rel, ref.Ch{R: x.R, S: x.S - q.lo, E: x.E - q.lo})
	}
	for _, x := range n(rel) {
		out = append(out, ref.Ch{R: x.R, S: x.S + q.lo, E: x.E + q.lo})
	}
	return out
}

func preTokHistory(c *core.C) {
	r := c.R
	text := gen.Seldom(r, 300)
	if len(text) > 300 {
		text = string([]rune(text)[:60])
	}
	pt := newPT(r, text)
	ps := []ptPiece{{s: ref.New(text), hi: len(text)}}
	hist := []string{fmt.Sprintf("%+q", text)}
	fail := func(key, f string, a ...any) {
		c.Fail(key, "%s\nafter %s", fmt.Sprintf(f, a...), strings.Join(hist, " ; "))
	}
	// tokens of a text, cut anywhere
	cut := func(s string) []tok {
		var out []tok
		for at := 0; at < len(s); {
			n := min(1+r.Intn(4), len(s)-at)
			if r.Intn(3) > 0 { // at the end of a character
				for at+n < len(s) && !utf8.RuneStart(s[at+n]) {
					n++
				}
			}
			out = append(out, tok{Id: r.Intn(300), Value: fmt.Sprintf("t%d", r.Intn(99)), Offsets: []int{at, at + n}})
			at += n
		}
		if r.Intn(8) == 0 && len(out) > 1 {
			i := r.Intn(len(out))
			out = append(out[:i:i], out[i+1:]...) // nothing says that tokens cover the text
		}
		return out
	}
	for step := 1 + r.Intn(6); step > 0 && !c.Failed(); step-- {
		var want []ptPiece
		op := r.Intn(4)
		if step == 1 && r.Intn(4) > 0 {
			op = 3
		}
		switch op {
		case 0, 1: // split
			p := gen.SplitPattern(r, false)
			b := r.Intn(len(splitBehaviors))
			attach := r.Intn(3) == 0
			hist = append(hist, fmt.Sprintf("split %s %d attach=%v", p.Name, b, attach))
			c.Detail("%s", strings.Join(hist, " ; "))
			var idxs, wantIdxs []int
			var seen, wantSeen []string
			given := map[string]tok{}
			pt.Split(func(i int, n *nstr) []splitIdx {
				idxs, seen = append(idxs, i), append(seen, n.GetNormalized())
				var out []splitIdx
				for _, x := range n.Split(p.Real, splitBehaviors[b]) {
					y := x
					si := splitIdx{Normalized: &y}
					if v := x.GetNormalized(); attach && len(v)%2 == 1 {
						t, ok := given[v]
						if !ok {
							t = tok{Id: 1000 + len(given), Value: v, Offsets: []int{0, len(v)}}
							given[v] = t
						}
						si.Tokens = []tok{t}
					}
					out = append(out, si)
				}
				return out
			})
			for i, q := range ps {
				if q.toks != nil {
					want = append(want, q)
					continue
				}
				wantIdxs, wantSeen = append(wantIdxs, i), append(wantSeen, q.s.String())
				for _, x := range ref.SplitBy(q.s, p.Ref, b) {
					if len(x) == 0 {
						continue
					}
					y := ptPiece{s: x, lo: x[0].S, hi: x[len(x)-1].E}
					if v := x.String(); attach && len(v)%2 == 1 {
						t, ok := given[v]
						if !ok {
							fail("split", "the piece %q is not among those given", v)
							return
						}
						y.toks = []tok{t}
					}
					want = append(want, y)
				}
			}
			if !reflect.DeepEqual(idxs, wantIdxs) || !reflect.DeepEqual(seen, wantSeen) {
				fail("split-asked", "the function was asked for pieces %v %+q, want %v %+q", idxs, seen, wantIdxs, wantSeen)
				return
			}
		case 2:
			n := gen.Normalizer(r, false)
			hist = append(hist, "normalize "+n.Name)
			c.Detail("%s", strings.Join(hist, " ; "))
			bad := false
			pt.Normalize(func(x *nstr) *nstr {
				out, err := n.Real.Normalize(x)
				bad = bad || err != nil
				return out
			})
			if bad {
				fail("error", "a normalizer gave an error")
				return
			}
			for _, q := range ps {
				if q.toks == nil {
					q.s = q.normalize(n.Ref)
				}
				want = append(want, q)
			}
		default:
			if step > 1 && r.Intn(3) > 0 {
				want = ps
				break
			}
			hist = append(hist, "tokenize")
			c.Detail("%s", strings.Join(hist, " ; "))
			var all [][]tok
			var seen, wantSeen []string
			failAt := -1
			if r.Intn(6) == 0 {
				failAt = r.Intn(len(ps) + 1)
			}
			_, err := pt.Tokenize(func(n *nstr) ([]tok, error) {
				if len(seen) == failAt {
					return nil, fmt.Errorf("no tokens for this")
				}
				seen = append(seen, n.GetNormalized())
				t := cut(n.GetNormalized())
				if r.Intn(8) == 0 {
					t = nil
				}
				all = append(all, t)
				return append([]tok(nil), t...), nil
			})
			open := 0
			for _, q := range ps {
				if q.toks == nil {
					open++
				}
			}
			if (err != nil) != (failAt >= 0 && failAt < open) {
				fail("tokenize-error", "error %v, the function failed at %d of %d pieces", err, failAt, open)
				return
			}
			if err != nil {
				c.Note("failed tokenizations")
				return
			}
			k := 0
			for _, q := range ps {
				if q.toks == nil {
					wantSeen = append(wantSeen, q.s.String())
					if k < len(all) {
						q.toks = append([]tok{}, all[k]...)
						k++
					}
				}
				want = append(want, q)
			}
			if !reflect.DeepEqual(seen, wantSeen) {
				fail("tokenize-asked", "the function was asked for %+q, want %+q", seen, wantSeen)
				return
			}
		}
		ps = want
		if d := diffPT(pt, ps, text); d != "" {
			fail("pieces", "%s", d)
			return
		}
		c.Note("steps")
	}
	// the encoding
	open, toks := 0, 0
	for _, q := range ps {
		if q.toks == nil {
			open++
		}
		toks += len(q.toks)
	}
	c.Eval(strings.Join(hist, " ; "), toks > 1 && len(ps) > 1)
	ty, word, ot := r.Intn(3), gen.Pick(r, -1, -1, 0, 3), gen.Pick(r, otByte, otChar)
	hist = append(hist, fmt.Sprintf("encode type %d word %d char=%v", ty, word, ot == otChar))
	e, err := pt.IntoEncoding(ty, word, ot)
	if (err != nil) != (open > 0) {
		fail("encode-error", "error %v with %d of %d pieces not tokenized", err, open, len(ps))
		return
	}
	if err != nil {
		c.Note("refused: pieces without tokens")
		return
	}
	var want []ref.T
	for i, q := range ps {
		al := q.s.Aligns()
		for _, t := range q.toks {
			w := word
			if w == -1 {
				w = i
			}
			s, en := al[t.Offsets[0]][0], al[t.Offsets[1]-1][1]
			if ot == otChar {
				s, en = utf8.RuneCountInString(text[:s]), utf8.RuneCountInString(text[:en])
			}
			want = append(want, ref.T{Id: t.Id, Type: ty, Tok: t.Value, S: s, E: en, Attn: 1, Word: w, Seq: 0})
		}
	}
	if d := diffTs(toT(e), want, false, true); d != "" {
		fail("encoding", "%s", d)
		return
	}
	if len(e.Overflowing) > 0 {
		fail("encoding", "%d overflowing parts", len(e.Overflowing))
	}
	c.NoteN("tokens encoded", len(want))
}

// diffPT compares the pieces of a pre-tokenized string in every way they can be asked for.
func diffPT(pt *preTok, ps []ptPiece, text string) string {
	for _, on := range []normalizer.IndexOn{normalizer.OriginalTarget, normalizer.NormalizedTarget} {
		chars := on == normalizer.OriginalTarget // offsets in the normalized text have no characters of the original
		for _, ot := range []offType{otByte, otChar} {
			if ot == otChar && !chars {
				continue
			}
			got := pt.GetSplits(on, ot)
			if len(got) != len(ps) {
				return fmt.Sprintf("%d pieces want %d", len(got), len(ps))
			}
			at := 0
			for i, g := range got {
				w := ps[i]
				v := w.s.String()
				if g.Value != v {
					return fmt.Sprintf("piece %d is %+q want %+q", i, g.Value, v)
				}
				if (g.Tokens == nil) != (w.toks == nil) || len(w.toks) > 0 && !reflect.DeepEqual(g.Tokens, w.toks) {
					return fmt.Sprintf("piece %d %+q has tokens %v want %v", i, v, g.Tokens, w.toks)
				}
				o := []int{at, at + len(v)}
				at += len(v)
				if on == normalizer.OriginalTarget {
					o = []int{w.lo, w.hi}
					if ot == otChar {
						o = []int{utf8.RuneCountInString(text[:w.lo]), utf8.RuneCountInString(text[:w.hi])}
					}
				}
				if !eqInts(g.Offsets, o) {
					return fmt.Sprintf("piece %d %+q has offsets %v want %v (in the original %v, characters %v)", i, v, g.Offsets, o, on == normalizer.OriginalTarget, ot == otChar)
				}
			}
		}
	}
	return ""
}
