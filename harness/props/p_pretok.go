package props

import (
	"fmt"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "P10", Quick: 6000, Thorough: 200000,
		Rule: "each case splits several texts (raw or normalized before) with a random pre-tokenizer or sequence of them, and compares the pieces and their byte and character offsets with a reference; non-trivial: at least two pieces",
		Run:  also(pretokenizers, 8, gen.Opts{Must: "pt", NoPost: true})})
	core.Register(&core.Prop{ID: "P29", Quick: 8704, Thorough: 87040,
		Rule: "each case splits texts, and a block of Unicode (all blocks are swept), at byte level: the pieces, as bytes, are the text again, cut where GPT-2's pattern cuts, and decode to it; non-trivial: at least two pieces",
		Run:  also(byteLevel, 8, gen.Opts{ByteLevel: true, NoPost: true, NoNorm: true})})
}

// splitsOf are the pieces of a pre-tokenized text.
func splitsOf(pt *tokenizer.PreTokenizedString) (vals []string, bytes, chars, norm [][]int) {
	b := pt.GetSplits(normalizer.OriginalTarget, tokenizer.Byte)
	ch := pt.GetSplits(normalizer.OriginalTarget, tokenizer.Char)
	n := pt.GetSplits(normalizer.NormalizedTarget, tokenizer.Byte)
	for i := range b {
		vals = append(vals, b[i].Value)
		bytes = append(bytes, b[i].Offsets)
		chars = append(chars, ch[i].Offsets)
		norm = append(norm, n[i].Offsets)
	}
	return
}

func pretokenizers(c *core.C) {
	r := c.R
	x := gen.PreTokenizer(r, false, r.Intn(4) == 0)
	if r.Intn(6) == 0 {
		x = gen.ByteLevelPT(r)
		if r.Intn(3) == 0 {
			// behind another one
			y := gen.PreTokenizer(r, false, false)
			x = gen.PT{Name: "sequence(" + y.Name + "; " + x.Name + ")", Real: pretokenizer.NewSequence([]tokenizer.PreTokenizer{y.Real, x.Real}), Refs: append(append([]ref.PT{}, y.Refs...), x.Refs...)}
		}
	}
	var nm *gen.Norm
	if r.Intn(3) == 0 {
		n := gen.Normalizer(r, false)
		nm = &n
	}
	for k := 0; k < 4 && !c.Failed(); k++ {
		text := gen.Seldom(r, 400)
		if r.Intn(4) == 0 {
			text = gen.Plain(r)
		}
		splitOne(c, x, nm, text)
	}
	if c.Idx%16 == 0 {
		failingPreTokenizer(c, x, gen.Any(r))
	}
	// a block of Unicode, each in one of the cases, through those that go by classes of characters
	const block = 192
	var sb strings.Builder
	for i := 0; i < block; i++ {
		ch := rune(c.Idx*block%0x110000 + i)
		if ch >= 0xd800 && ch < 0xe000 || ch > 0x10ffff {
			continue
		}
		sb.WriteRune(ch)
		if r.Intn(2) == 0 {
			sb.WriteString(gen.Pick(r, "a", "1", ".", "aa", " ", "中", "カ", "ж"))
		}
		c.Note("characters swept")
	}
	for _, y := range []gen.PT{
		{Name: "bert", Real: pretokenizer.NewBertPreTokenizer(), Refs: []ref.PT{ref.BertPT}},
		{Name: "whitespace", Real: pretokenizer.NewWhitespace(), Refs: []ref.PT{ref.WhitespacePT}},
		{Name: "whitespacesplit", Real: pretokenizer.NewWhitespaceSplit(), Refs: []ref.PT{ref.WhitespaceSplitPT}},
		{Name: "punctuation", Real: pretokenizer.DefaultPunctuation(), Refs: []ref.PT{ref.PunctuationPT(ref.Isolated)}},
		{Name: "digits", Real: pretokenizer.NewDigits(false), Refs: []ref.PT{ref.DigitsPT(false)}},
		{Name: "scripts", Real: pretokenizer.NewUnicodeScript(), Refs: []ref.PT{ref.ScriptPT}},
		{Name: "metaspace", Real: pretokenizer.DefaultMetaspace(), Refs: []ref.PT{ref.MetaspacePT("▁", ref.Always)}},
	} {
		if !c.Failed() {
			splitOne(c, y, nil, sb.String())
		}
	}
}

// splitOne compares the pieces of one text.
func splitOne(c *core.C, x gen.PT, nm *gen.Norm, text string) {
	desc := x.Name + fmt.Sprintf(" on %+q", text)
	pt := tokenizer.NewPreTokenizedString(text)
	s := ref.New(text)
	if nm != nil {
		desc += " after " + nm.Name
		pt.Normalize(func(n *normalizer.NormalizedString) *normalizer.NormalizedString {
			out, err := nm.Real.Normalize(n)
			if err != nil {
				c.Fail("error", "%v: %s", err, desc)
				return n
			}
			return out
		})
		s = nm.Ref(s)
	}
	c.Detail("%s", desc)
	got, err := x.Real.PreTokenize(pt)
	if err != nil {
		c.Fail("error", "%v: %s", err, desc)
		return
	}
	want := x.Apply([]ref.Piece{{S: s}})
	c.Eval(desc, len(want) > 1)
	vals, bytes, chars, norm := splitsOf(got)
	var wv []string
	var wb, wc, wn [][]int
	at := 0
	for _, p := range want {
		v := p.S.String()
		b, e := p.S[0].S, p.S[len(p.S)-1].E
		wv = append(wv, v)
		wb = append(wb, []int{b, e})
		wc = append(wc, []int{utf8.RuneCountInString(text[:b]), utf8.RuneCountInString(text[:e])})
		wn = append(wn, []int{at, at + len(v)})
		at += len(v)
	}
	if !reflect.DeepEqual(vals, wv) {
		// empty pieces carry nothing
		c.Fail("pieces", "%s: %s", core.Diff(vals, wv), desc)
		return
	}
	if !reflect.DeepEqual(bytes, wb) {
		c.Fail("offsets", "pieces %+q: byte offsets %v want %v: %s", vals, bytes, wb, desc)
		return
	}
	if !reflect.DeepEqual(chars, wc) {
		c.Fail("char-offsets", "pieces %+q: character offsets %v want %v: %s", vals, chars, wc, desc)
		return
	}
	if !reflect.DeepEqual(norm, wn) {
		c.Fail("norm-offsets", "pieces %+q: offsets in the normalized text %v want %v: %s", vals, norm, wn, desc)
		return
	}
	c.NoteN("pieces compared", len(vals))
	c.Note("pre-tokenizer: " + strings.FieldsFunc(x.Name, func(r rune) bool { return r == ' ' || r == '(' })[0])
}

func byteLevel(c *core.C) {
	r := c.R
	const block = 128
	var sb strings.Builder
	for i := 0; i < block; i++ {
		ch := rune(c.Idx%(0x110000/block)*block + i)
		if ch >= 0xd800 && ch < 0xe000 {
			continue
		}
		sb.WriteRune(ch)
		if i%5 == 2 {
			sb.WriteString(gen.Pick(r, " ", "a", "'s", " a", "1", " .", "  ", "'"))
		}
		c.Note("characters swept")
	}
	texts := []string{sb.String(), gen.Any(r), gen.Text(r)}
	for _, text := range texts {
		pre := r.Intn(2) == 0
		bl := &pretokenizer.ByteLevel{AddPrefixSpace: pre, TrimOffsets: r.Intn(2) == 0}
		desc := fmt.Sprintf("prefix=%v %+q", pre, text)
		c.Detail("%s", desc)
		pt, err := bl.PreTokenize(tokenizer.NewPreTokenizedString(text))
		if err != nil {
			c.Fail("error", "%v: %s", err, desc)
			return
		}
		vals, bytes, _, _ := splitsOf(pt)
		c.Eval(desc, len(vals) > 1)
		// 1. lossless
		full := text
		if pre && text != "" && !strings.HasPrefix(text, " ") {
			full = " " + text
		}
		var raw []byte
		var cuts, want []int
		for _, v := range vals {
			for _, ch := range v {
				b, ok := ref.CharByte[ch]
				if !ok {
					c.Fail("alphabet", "%q is not in the alphabet: %s", ch, desc)
					return
				}
				raw = append(raw, b)
			}
			cuts = append(cuts, len(raw))
		}
		if string(raw) != full {
			c.Fail("lossless", "the pieces carry %+q: %s", raw, desc)
			return
		}
		// 2. cut where the pattern cuts
		fs := ref.New(full)
		for _, m := range ref.GPT2Pat(fs) {
			want = append(want, fs[m.E-1].E)
		}
		if !reflect.DeepEqual(cuts, want) {
			c.Fail("cuts", "cut at %v, want %v: %s", cuts, want, desc)
			return
		}
		// 3. the offsets tile the text
		at := 0
		for i, o := range bytes {
			if o[0] > at || o[1] < at && o[1] != o[0] {
				c.Fail("tile", "piece %d has offsets %v, the pieces before end at %d: %s", i, o, at, desc)
				return
			}
			at = max(at, o[1])
		}
		if at != len(text) {
			c.Fail("tile", "the pieces end at %d of %d: %s", at, len(text), desc)
			return
		}
		// 4. decodes to the same text, however its pieces are cut on character boundaries of the alphabet
		if got := bl.Decode(vals); got != full {
			c.Fail("decode", "decodes to %+q: %s", got, desc)
			return
		}
		if got := strings.Join(bl.DecodeChain(vals), ""); got != full {
			c.Fail("decode-chain", "decodes to %+q: %s", got, desc)
			return
		}
		c.NoteN("pieces", len(vals))
	}
	if c.Idx == 0 {
		// the alphabet is a bijection of all the bytes to printable characters
		bc := pretokenizer.GenerateBytesChar()
		seen := map[string]bool{}
		for b := 0; b < 256; b++ {
			s := bc[uint8(b)]
			if s != string(ref.ByteChar[b]) || seen[s] || pretokenizer.BytesChar[uint8(b)] != s || pretokenizer.CharBytes[s] != uint8(b) {
				c.Fail("alphabet", "byte %d is %q", b, s)
			}
			seen[s] = true
		}
		if al := pretokenizer.NewByteLevel().Alphabet(); len(al) != 256 {
			c.Fail("alphabet", "%d letters", len(al))
		}
		c.NoteN("bytes of the alphabet", 256)
	}
}
