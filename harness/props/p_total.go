package props

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/bpe"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "P21", Quick: 2000, Thorough: 40000,
		Rule: "each case makes a random tokenizer and gives it hostile inputs (bytes that are not UTF-8, parts of characters, surrogates, huge runs of one character, marks without a base, control characters, empty parts, wrong ids and tokens) to encode, encode in batches and decode, and asks the results hostile questions; panics, exits, endless loops and runaway memory are watched for, and results must be well formed with offsets inside the input; non-trivial: an input that is not valid UTF-8, of more than 1000 bytes, or with an unknown id",
		Run:  total})
}

var brokenUTF8 = []string{"\xff", "\xfe\xff", "\x80", "\xbf\xbf", "\xc0\x80", "\xc3", "\xe4\xb8", "\xed\xa0\x80", "\xed\xb0\x80", "\xf0\x9f\x98", "\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80", "\xe2\x96", "\xc4", "\xa0", "\xe3\x80"}

func hostileText(r *rand.Rand, texts []string) string {
	var b strings.Builder
	for i := 1 + r.Intn(5); i > 0; i-- {
		switch r.Intn(9) {
		case 0:
			b.WriteString(gen.Pick(r, brokenUTF8...))
		case 1:
			x := make([]byte, r.Intn(12))
			r.Read(x)
			b.Write(x)
		case 2:
			// a text cut or changed within a character
			t := []byte(gen.Any(r))
			if len(t) > 0 {
				i := r.Intn(len(t))
				if r.Intn(2) == 0 {
					t = t[i:]
				} else {
					t[i] = byte(r.Intn(256))
				}
			}
			b.Write(t)
		case 3:
			b.WriteString(gen.Any(r, texts...))
		case 4:
			x := gen.Pick(r, texts...)
			if x != "" {
				i := r.Intn(len(x))
				x = x[:i] + gen.Pick(r, brokenUTF8...) + x[i:]
			}
			b.WriteString(x)
		case 5:
			b.WriteString(gen.RandRunes(r, r.Intn(20)))
		case 6:
			b.WriteString(strings.Repeat(gen.Pick(r, "\u0301", "\u200d", "\u200b", "\x00", "\ufe0f", "\u0e33", "▁", " ", "\u00a0", "\U0001f1eb", "\u1100", "\ufffd"), 1+r.Intn(40)))
		default:
			b.WriteString(gen.Pick(r, texts...))
		}
	}
	s := b.String()
	if r.Intn(40) == 0 {
		n := 1000 + r.Intn(2500)
		x := gen.Pick(r, gen.Word(r), gen.Pick(r, brokenUTF8...), "a", " ", "\u0301", "中", "ab ", "aA1 ", s)
		if x != "" {
			s = strings.Repeat(x, 1+n/len(x))[:n]
		}
	}
	return s
}

func hostileId(r *rand.Rand, size int) int {
	switch r.Intn(6) {
	case 0:
		return gen.Pick(r, -1, -2, math.MinInt, math.MaxInt, 1<<31, -1<<31, 1<<20)
	case 1:
		return size + r.Intn(30) - 10
	}
	return r.Intn(size + 1)
}

func total(c *core.C) {
	r := c.R
	p := gen.Make(r, gen.Opts{Trunc: true, Pad: true, Script: true, Dec: true})
	desc := ""
	if r.Intn(4) == 0 {
		// nothing for unknown characters
		m := bpe.NewBPE(gen.Copy(p.Model.Vocab), bpe.Merges{})
		p.Real = tokenizer.NewTokenizer(m)
		for _, a := range p.Added {
			var ts []tokenizer.AddedToken
			for _, t := range a.Toks {
				ts = append(ts, gen.RealAdded(t, a.Special))
			}
			p.Real.AddTokens(ts)
		}
		if p.PT != nil && r.Intn(2) == 0 {
			p.Real.WithPreTokenizer(p.PT.Real)
		}
		if p.Norm != nil && r.Intn(2) == 0 {
			p.Real.WithNormalizer(p.Norm.Real)
		}
		if p.Dec != nil {
			p.Real.WithDecoder(p.Dec.Real)
		}
		desc = "bpe without unknown token and merges for "
	}
	texts := append([]string{""}, p.Texts...)
	for _, a := range p.Added {
		for _, t := range a.Toks {
			texts = append(texts, t.Content)
		}
	}
	for v := range p.Model.Vocab {
		texts = append(texts, v)
		if len(texts) > 60 {
			break
		}
	}
	// the choice of texts must not depend on the order of maps
	sort.Strings(texts)
	desc += p.String()
	input := func() ref.Input {
		if r.Intn(5) == 0 {
			in := ref.Input{IsPre: true, Words: []string{}}
			for i := r.Intn(6); i > 0; i-- {
				t := hostileText(r, texts)
				in.Words = append(in.Words, t[:min(len(t), 200)])
			}
			return in
		}
		return ref.Input{Text: hostileText(r, texts)}
	}
	for k := 0; k < 6 && !c.Failed(); k++ {
		if r.Intn(4) == 0 {
			hostileDecode(c, p, desc)
			continue
		}
		a := input()
		var b *ref.Input
		if r.Intn(3) == 0 {
			x := input()
			b = &x
		}
		if p.Trunc != nil {
			// every window of one goes with every window of the other
			lim := 1000
			if b != nil {
				lim = 60
			}
			cutTo(&a, lim)
			if b != nil {
				cutTo(b, lim)
			}
		}
		special := r.Intn(2) == 0
		d := fmt.Sprintf("%s special=%v in=%s", desc, special, pairStr(a, b))
		all := a.Text + strings.Join(a.Words, "")
		if b != nil {
			all += b.Text + strings.Join(b.Words, "")
		}
		if !utf8.ValidString(all) {
			c.Note("inputs that are not UTF-8")
		}
		if len(all) > 1000 {
			c.Note("long inputs")
		}
		c.Eval(d, !utf8.ValidString(all) || len(all) > 1000)
		c.Detail("%s", d)
		var es []tokenizer.Encoding
		var err error
		if !c.Guard("panic", d, func() {
			var e *tokenizer.Encoding
			in := gen.RealEncodeInput(a, b)
			switch r.Intn(4) {
			case 0:
				e, err = p.Real.EncodeCharOffsets(in, special)
			case 1:
				es, err = p.Real.EncodeBatch([]tokenizer.EncodeInput{in, in}, special)
			default:
				e, err = p.Real.Encode(in, special)
			}
			if e != nil {
				es = append(es, *e)
			}
		}) {
			return
		}
		if err != nil {
			c.Note("errors")
			continue
		}
		for i := range es {
			c.Note("encodings")
			if s := wellFormed(&es[i], a, b); s != "" {
				c.Fail("malformed", "%s: %s", s, d)
				return
			}
			for j := range es[i].Overflowing {
				if s := wellFormed(&es[i].Overflowing[j], a, b); s != "" {
					c.Fail("malformed", "overflowing part %d: %s: %s", j, s, d)
					return
				}
			}
			if !c.Guard("query-panic", d, func() { hostileQueries(r, &es[i]) }) {
				return
			}
			if !c.Guard("decode-panic", d, func() { p.Real.Decode(es[i].Ids, special) }) {
				return
			}
		}
	}
}

// wellFormed: each token's offsets lie within the part of the input they are about.
func wellFormed(e *tokenizer.Encoding, a ref.Input, b *ref.Input) string {
	if s := structural(e); s != "" {
		return s
	}
	size := func(in ref.Input, w int) int {
		if !in.IsPre {
			return len(in.Text)
		}
		if w >= 0 && w < len(in.Words) {
			return len(in.Words[w])
		}
		return 0
	}
	for i, o := range e.Offsets {
		w := -1
		if i < len(e.Words) {
			w = e.Words[i]
		}
		if w < -1 {
			return fmt.Sprintf("token %d is of word %d", i, w)
		}
		n := size(a, w)
		if b != nil {
			// which of both is only known with sequence ranges
			switch seqOf(e, i) {
			case 0:
			case 1:
				n = size(*b, w)
			default:
				n = max(n, size(*b, w))
			}
		}
		if o[1] > n {
			return fmt.Sprintf("token %d %+q of word %d has offsets %v in an input of %d bytes", i, e.Tokens[i], w, o, n)
		}
	}
	return ""
}

func hostileQueries(r *rand.Rand, e *tokenizer.Encoding) {
	n := e.Len()
	at := func() int {
		return gen.Pick(r, -1, 0, n-1, n, n+1, r.Intn(n+3), math.MaxInt, math.MinInt, -2)
	}
	for i := 0; i < 3; i++ {
		e.Token2Sequence(at())
		e.Word2Tokens(at())
		e.Word2Chars(at())
		e.Token2Chars(at())
		e.Token2Word(at())
		e.Char2Token(at())
		e.Char2Word(at())
	}
	e.GetSequenceIds()
	e.NSequences()
}

func hostileDecode(c *core.C, p *gen.Pipe, desc string) {
	r := c.R
	var ids []int
	size := p.Real.GetVocabSize(true)
	for i := r.Intn(12); i > 0; i-- {
		ids = append(ids, hostileId(r, size))
	}
	d := fmt.Sprintf("%s decode %v", desc, ids)
	unknown := false
	for _, id := range ids {
		unknown = unknown || id < 0 || id >= size
	}
	c.Eval(d, unknown)
	c.Detail("%s", d)
	c.Note("decodings")
	if !c.Guard("panic", d, func() {
		p.Real.Decode(ids, r.Intn(2) == 0)
		p.Real.DecodeBatch([][]int{ids, nil, {}, ids}, r.Intn(2) == 0)
		for _, id := range ids {
			p.Real.IdToToken(id)
		}
	}) {
		return
	}
	dec := gen.Decoder(r, false)
	toks := gen.DecTokens(r)
	for i := range toks {
		if r.Intn(3) == 0 {
			toks[i] = gen.Pick(r, append(brokenUTF8, "", "<0x>", "<0xZZ>", "<0x1", "<0x4g>", "<0x-1>", "<0x+1>", "<0x100>", "</w>", "##", "▁▁", "Ġ\xff", " ")...)
		}
	}
	d = fmt.Sprintf("%s on %+q", dec.Name, toks)
	c.Eval(d, true)
	c.Detail("%s", d)
	c.Note("token lists decoded")
	c.Guard("panic", d, func() {
		dec.Real.Decode(append([]string{}, toks...))
		dec.Real.DecodeChain(append([]string{}, toks...))
	})
}

// cutTo shortens an input to n bytes.
func cutTo(in *ref.Input, n int) {
	in.Text = in.Text[:min(len(in.Text), n)]
	for i, w := range in.Words {
		in.Words[i] = w[:min(len(w), n)]
		n -= len(in.Words[i])
	}
}
