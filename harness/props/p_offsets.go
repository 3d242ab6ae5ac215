package props

import (
	"fmt"
	"reflect"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "P02", Quick: 900, Thorough: 40000,
		Rule: "each case makes a random tokenizer whose normalization keeps characters apart (none, lowercasing, stripping) and encodes several texts; every token is compared with the bytes of the input its offsets name; non-trivial: at least two tokens",
		Run:  faithful})
	core.Register(&core.Prop{ID: "P03", Quick: 900, Thorough: 40000,
		Rule: "each case makes a random tokenizer and encodes texts and word lists with byte offsets and with character offsets; non-trivial: the text has characters of several bytes",
		Run:  charOffsets})
	core.Register(&core.Prop{ID: "P28", Quick: 900, Thorough: 40000,
		Rule: "each case makes a random tokenizer and encodes lists of words; the result is compared with the words encoded one at a time; non-trivial: at least two words with tokens",
		Run:  preTokenized})
}

// faithful checks that tokens are what their offsets say, with no reference pipeline involved.
func faithful(c *core.C) {
	r := c.R
	o := gen.Opts{NoNorm: true, NoPost: true, NoAdded: r.Intn(3) > 0, Script: true}
	p := gen.Make(r, o)
	lower := r.Intn(3) == 0
	if lower {
		p.Real.WithNormalizer(normalizer.Lowercase())
	}
	byteLevel := p.PT != nil && p.PT.ByteLevel
	added := map[string]bool{}
	for _, a := range p.Added {
		for _, t := range a.Toks {
			added[t.Content] = true
		}
	}
	fold := func(s string) string {
		if lower {
			return strings.Map(unicode.ToLower, s)
		}
		return s
	}
	for k := 0; k < 8 && !c.Failed(); k++ {
		in, _ := inputs(r, p, false)
		if in.IsPre {
			continue
		}
		if p.Model.Uni != nil && strings.Contains(fold(in.Text), "<unk>") {
			continue
		}
		desc := fmt.Sprintf("%s lower=%v in=%s", p, lower, inputStr(in))
		e, err := p.Real.Encode(gen.RealEncodeInput(in, nil), false)
		if err != nil {
			c.Note("model errors")
			continue
		}
		c.Eval(desc, e.Len() > 1)
		if s := structural(e); s != "" {
			c.Fail("structure", "%s: %s", s, desc)
			return
		}
		text := in.Text
		last := 0
		bytesSeen := 0
		for i := range e.Ids {
			s, t := e.Offsets[i][0], e.Offsets[i][1]
			if t > len(text) {
				c.Fail("range", "token %d %q has offsets [%d,%d] of a text of %d bytes: %s", i, e.Tokens[i], s, t, len(text), desc)
				return
			}
			if !utf8.ValidString(text[s:t]) {
				c.Fail("boundary", "token %d %q has offsets [%d,%d] inside a character: %s", i, e.Tokens[i], s, t, desc)
				return
			}
			if s < last {
				c.Fail("order", "token %d %q starts at %d before token %d starts at %d: %s", i, e.Tokens[i], s, i-1, last, desc)
				return
			}
			last = s
			// ids and tokens name the same entry, unless the token is unknown
			tok := e.Tokens[i]
			name, ok := p.Real.IdToToken(e.Ids[i])
			part := fold(text[s:t])
			if ok && name != tok && strings.TrimFunc(tok, ref.WideSpace) != name {
				// unigram gives unknown tokens the text they stand for
				if !(p.Model.Uni != nil && e.Ids[i] == p.Model.Uni.Unk) {
					c.Fail("name", "token %d is %q but its id %d names %q: %s", i, tok, e.Ids[i], name, desc)
					return
				}
			}
			if added[strings.TrimFunc(tok, ref.WideSpace)] || added[tok] {
				if got := fold(text[s:t]); got != tok && text[s:t] != tok && !lower {
					c.Note("added tokens")
				}
				continue
			}
			switch {
			case byteLevel:
				// the bytes of the token lie within the text it points at (which may be wider for parts of characters)
				raw := make([]byte, 0, len(tok))
				for _, ch := range tok {
					b, ok := ref.CharByte[ch]
					if !ok {
						c.Fail("bytes", "token %d %q has a character outside of the byte alphabet: %s", i, tok, desc)
						return
					}
					raw = append(raw, b)
				}
				w := string(raw)
				if !strings.Contains(part, w) && !(p.PT.Prefix && strings.HasPrefix(w, " ") && strings.Contains(part, w[1:])) {
					c.Fail("faithful", "token %d %q stands for %q but its offsets name %q: %s", i, tok, w, part, desc)
					return
				}
				bytesSeen += len(w)
			case p.Model.BPE != nil:
				if tok == p.Model.BPE.Unk {
					if utf8.RuneCountInString(part) != 1 {
						c.Fail("unknown", "unknown token %d points at %q: %s", i, part, desc)
						return
					}
					continue
				}
				v := tok
				if i > 0 && e.Words[i-1] == e.Words[i] {
					v = strings.TrimPrefix(v, p.Model.BPE.Prefix)
				}
				if p.Model.BPE.Suffix != "" && (i+1 == e.Len() || e.Words[i+1] != e.Words[i]) {
					v = strings.TrimSuffix(v, p.Model.BPE.Suffix)
				}
				if !samePart(p, v, part) {
					c.Fail("faithful", "token %d %q stands for %q but its offsets name %q: %s", i, tok, v, part, desc)
					return
				}
			case strings.HasPrefix(p.Model.Name, "wordlevel"):
				if id, ok := p.Real.GetModel().TokenToId(part); ok && id != e.Ids[i] && !prefixPT(p) {
					c.Fail("faithful", "token %d is %q but its text %q has an entry: %s", i, tok, part, desc)
					return
				}
				if !prefixPT(p) && tok != part && tok != "[UNK]" && tok != "<unk>" {
					c.Fail("faithful", "token %d %q but its offsets name %q: %s", i, tok, part, desc)
					return
				}
			}
			c.Note("tokens compared with the text")
		}
		// byte-level tokens carry the whole text
		if byteLevel && len(added) == 0 {
			want := len(fold(text))
			n := 0
			if p.PT.Prefix && text != "" && !strings.HasPrefix(fold(text), " ") {
				n = 1
			}
			if bytesSeen != want+n {
				c.Fail("lossless", "the tokens carry %d bytes of %d (prefix %d): %+q: %s", bytesSeen, want, n, e.Tokens, desc)
				return
			}
			c.Note("lossless texts")
		}
	}
}

func prefixPT(p *gen.Pipe) bool { return p.PT != nil && strings.Contains(p.PT.Name, "metaspace") }

// samePart compares a token with the text, where a metaspace pre-tokenizer may have written
// something else for whitespace and put something in front.
func samePart(p *gen.Pipe, v, part string) bool {
	if v == part {
		return true
	}
	if !prefixPT(p) {
		return false
	}
	// match rune by rune: a whitespace character stands as any string of the replacement
	cut := func(s string) string {
		s = strings.Map(func(r rune) rune {
			if r == '▁' || r == '_' || ref.WideSpace(r) || r == 'é' {
				return -1
			}
			return r
		}, s)
		return s
	}
	return cut(v) == "" || cut(v) == cut(part)
}

// charOffsets compares both kinds of offsets.
func charOffsets(c *core.C) {
	r := c.R
	p := gen.Make(r, gen.Opts{Pad: true, Trunc: true})
	conv := func(text string, o []int, spec int) []int {
		if spec == 1 {
			return o
		}
		return []int{utf8.RuneCountInString(text[:o[0]]), utf8.RuneCountInString(text[:o[1]])}
	}
	for k := 0; k < 8 && !c.Failed(); k++ {
		a, b := inputs(r, p, true)
		special := r.Intn(2) == 0
		want, ok, cut := p.Ref.Encode(a, b, special)
		if !ok || !cut || len(want.Over) > 100 {
			continue
		}
		if p.Post != nil && strings.Contains(p.Post.Name, "trim=true") {
			continue // trimming counts characters of the token in whatever unit the offsets have
		}
		desc := fmt.Sprintf("%s special=%v in=%s", p, special, pairStr(a, b))
		x, err := p.Real.Encode(gen.RealEncodeInput(a, b), special)
		y, err2 := p.Real.EncodeCharOffsets(gen.RealEncodeInput(a, b), special)
		if err != nil || err2 != nil {
			c.Fail("error", "%v / %v: %s", err, err2, desc)
			return
		}
		multi := false
		for _, t := range append([]string{a.Text}, a.Words...) {
			multi = multi || len(t) != utf8.RuneCountInString(t)
		}
		c.Eval(desc, multi)
		xs, ys := append([]tokenizer.Encoding{*x}, x.Overflowing...), append([]tokenizer.Encoding{*y}, y.Overflowing...)
		if len(xs) != len(ys) {
			c.Fail("parts", "%d parts with bytes, %d with characters: %s", len(xs), len(ys), desc)
			return
		}
		for i := range xs {
			u, v := xs[i], ys[i]
			if !reflect.DeepEqual(u.Ids, v.Ids) || !reflect.DeepEqual(u.Tokens, v.Tokens) || !reflect.DeepEqual(u.Words, v.Words) ||
				!reflect.DeepEqual(u.TypeIds, v.TypeIds) || !reflect.DeepEqual(u.SpecialTokenMask, v.SpecialTokenMask) || !reflect.DeepEqual(u.AttentionMask, v.AttentionMask) {
				c.Fail("tokens", "part %d: tokens differ: %+q and %+q: %s", i, u.Tokens, v.Tokens, desc)
				return
			}
			for j := range u.Ids {
				in := a
				if s := seqOf(&u, j); s == 1 && b != nil {
					in = *b
				} else if b != nil && len(u.SequenceRanges) == 0 {
					continue
				}
				text := in.Text
				if in.IsPre {
					if j >= len(u.Words) || u.Words[j] < 0 || u.Words[j] >= len(in.Words) {
						continue
					}
					text = in.Words[u.Words[j]]
				}
				if u.Offsets[j][1] > len(text) {
					c.Fail("range", "part %d token %d has byte offsets %v of a text of %d bytes: %s", i, j, u.Offsets[j], len(text), desc)
					return
				}
				if w := conv(text, u.Offsets[j], u.SpecialTokenMask[j]); !eqInts(w, v.Offsets[j]) {
					c.Fail("offsets", "part %d token %d %q of %+q: bytes %v are characters %v, got %v: %s", i, j, u.Tokens[j], text, u.Offsets[j], w, v.Offsets[j], desc)
					return
				}
				c.Note("offsets compared")
			}
		}
	}
	// the conversions themselves
	for k := 0; k < 4 && !c.Failed(); k++ {
		text := gen.Text(r)
		n := utf8.RuneCountInString(text)
		c.Eval("convert "+text, len(text) != n)
		cv := tokenizer.NewBytesToCharOffsetConverter(text)
		var bounds []int // the byte each character starts at
		for i := range text {
			bounds = append(bounds, i)
		}
		bounds = append(bounds, len(text))
		if n == 0 {
			continue
		}
		s := r.Intn(n)
		t := s + 1 + r.Intn(n-s)
		if r.Intn(6) == 0 {
			t = s // an empty range
			c.Note("empty ranges converted")
		}
		got, err := cv.Convert([]int{bounds[s], bounds[t]})
		if err != nil || !eqInts(got, []int{s, t}) {
			c.Fail("convert", "bytes [%d,%d] of %+q: got %v %v want [%d %d]", bounds[s], bounds[t], text, got, err, s, t)
		}
		if got := normalizer.BytesToChar(text, []int{bounds[s], bounds[t]}); !eqInts(got, []int{s, t}) {
			c.Fail("bytes-to-char", "BytesToChar [%d,%d] of %+q: got %v want [%d %d]", bounds[s], bounds[t], text, got, s, t)
		}
		if got := normalizer.CharToBytes(text, []int{s, t}); !eqInts(got, []int{bounds[s], bounds[t]}) {
			c.Fail("char-to-bytes", "CharToBytes [%d,%d] of %+q: got %v want [%d %d]", s, t, text, got, bounds[s], bounds[t])
		}
		if s < t {
			if got := normalizer.RangeOf(text, []int{s, t}); got != text[bounds[s]:bounds[t]] {
				c.Fail("range-of", "RangeOf [%d,%d] of %+q: got %+q want %+q", s, t, text, got, text[bounds[s]:bounds[t]])
			}
		}
		c.Note("conversions")
	}
}

// preTokenized: encoding words is encoding each word on its own.
func preTokenized(c *core.C) {
	r := c.R
	p := gen.Make(r, gen.Opts{NoPost: true})
	list := func() []string {
		var ws []string
		n := gen.Pick(r, 0, r.Intn(7), r.Intn(7))
		if r.Intn(60) == 0 {
			n = 100 + r.Intn(500)
			c.Note("lists of over 100 words")
		}
		for i := n; i >= 0; i-- {
			if n >= 100 && r.Intn(20) > 0 {
				ws = append(ws, gen.Word(r))
				continue
			}
			switch r.Intn(6) {
			case 0:
				ws = append(ws, gen.Text(r))
			case 1:
				ws = append(ws, "")
			default:
				in := gen.InputFor(r, p)
				f := strings.Fields(in.Text)
				if len(f) > 0 {
					ws = append(ws, gen.Pick(r, f...))
				} else {
					ws = append(ws, gen.Word(r))
				}
			}
		}
		return ws
	}
	for k := 0; k < 6 && !c.Failed(); k++ {
		ws := list()
		ins := []ref.Input{{IsPre: true, Words: ws}}
		if r.Intn(3) == 0 {
			x := ref.Input{IsPre: true, Words: list()}
			ws = append(append([]string{}, ws...), x.Words...)
			ins = append(ins, x)
			if r.Intn(3) == 0 {
				ins[0] = ref.Input{Text: gen.Text(r)}
			}
			c.Note("pairs with word lists")
		}
		if !validInput(p, ins[0]) || !validInput(p, ins[len(ins)-1]) {
			continue
		}
		var second *ref.Input
		if len(ins) > 1 {
			second = &ins[1]
		}
		desc := fmt.Sprintf("%s words=%s", p, pairStr(ins[0], second))
		chars := r.Intn(2) == 0
		enc := func(s ref.Input, t *ref.Input) (*tokenizer.Encoding, error) {
			if chars {
				return p.Real.EncodeCharOffsets(gen.RealEncodeInput(s, t), false)
			}
			return p.Real.Encode(gen.RealEncodeInput(s, t), false)
		}
		got, err := enc(ins[0], second)
		var want []ref.T
		used := 0
		var werr error
		for typ, in := range ins {
			words := in.Words
			if !in.IsPre {
				words = []string{in.Text}
			}
			for i, w := range words {
				e, er := enc(ref.Input{Text: w}, nil)
				if er != nil {
					werr = er
					break
				}
				ts := toT(e)
				if len(ts) > 0 {
					used++
				}
				for _, t := range ts {
					if in.IsPre {
						t.Word = i
					}
					t.Type = typ
					want = append(want, t)
				}
			}
		}
		c.Eval(desc, used > 1)
		if (err != nil) != (werr != nil) {
			c.Fail("error", "words: %v, one at a time: %v: %s", err, werr, desc)
			return
		}
		if err != nil {
			c.Note("model errors")
			continue
		}
		if s := structural(got); s != "" {
			c.Fail("structure", "%s: %s", s, desc)
			return
		}
		if d := diffTs(toT(got), want, false, true); d != "" {
			c.Fail("words", "%s\n%s", d, desc)
			return
		}
		c.NoteN("tokens compared", len(want))
		c.NoteN("words", len(ws))
	}
}
