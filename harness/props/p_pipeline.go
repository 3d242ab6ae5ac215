package props

import (
	"fmt"

	"github.com/sugarme/tokenizer"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "P01", Quick: 1200, Thorough: 60000,
		Rule: "each case makes a random tokenizer (normalizer, pre-tokenizer, model, added tokens, post-processor, truncation, padding) and encodes several single, paired and pre-tokenized inputs; the encoding is compared field by field with the reference pipeline; non-trivial: at least two tokens",
		Run:  func(c *core.C) { pipeline(c, gen.Opts{Trunc: true, Pad: true, Script: true}, 8) }})
}

// encode runs one input through both sides and compares.
func encodeBoth(c *core.C, p *gen.Pipe, a ref.Input, b *ref.Input, special bool) (*tokenizer.Encoding, ref.Enc, bool) {
	want, ok, cut := p.Ref.Encode(a, b, special)
	if len(want.Over) > 150 {
		c.Note("skipped: too many windows")
		return nil, want, false
	}
	desc := fmt.Sprintf("%s special=%v in=%s", p, special, pairStr(a, b))
	c.Eval(desc, len(want.T) > 1)
	var got *tokenizer.Encoding
	var err error
	plain := !p.Ref.Chars && !a.IsPre && (b == nil || !b.IsPre)
	opt := []bool{special}
	if !special && c.R.Intn(2) == 0 {
		opt = nil // the default
	}
	switch {
	case p.Ref.Chars:
		got, err = p.Real.EncodeCharOffsets(gen.RealEncodeInput(a, b), special)
	case plain && b == nil && c.R.Intn(3) == 0:
		got, err = p.Real.EncodeSingle(a.Text, opt...)
		toks, terr := p.Real.Tokenize(a.Text, opt...)
		if (err == nil) != (terr == nil) || err == nil && !sameStrings(toks, got.Tokens) {
			c.Fail("tokenize", "Tokenize gives %+q (%v): %s", toks, terr, desc)
			return nil, want, false
		}
		c.Note("single texts by EncodeSingle and Tokenize")
	case plain && b != nil && c.R.Intn(3) == 0:
		got, err = p.Real.EncodePair(a.Text, b.Text, opt...)
		c.Note("pairs by EncodePair")
	case ok && cut && c.R.Intn(4) == 0:
		// by hand
		var x, y *tokenizer.Encoding
		if x, err = p.Real.EncodeSingleSequence(gen.RealInput(a), 0, tokenizer.Byte); err == nil && b != nil {
			y, err = p.Real.EncodeSingleSequence(gen.RealInput(*b), 1, tokenizer.Byte)
		}
		if err == nil {
			got = p.Real.PostProcess(x, y, special)
		}
		c.Note("sequences encoded and then processed")
	default:
		got, err = p.Real.Encode(gen.RealEncodeInput(a, b), special)
	}
	if !cut {
		c.Note("impossible truncations")
		if err == nil {
			c.Fail("no-truncation-error", "a truncation that is impossible gave no error: %s", desc)
		}
		return nil, want, false
	}
	if !ok {
		c.Note("model errors")
		if err == nil {
			c.Fail("no-error", "an input the model has no token for gave no error: %s", desc)
		}
		return nil, want, false
	}
	if err != nil {
		c.Fail("error", "%v: %s", err, desc)
		return nil, want, false
	}
	if d := diffEnc(got, want, p.Ref.Post); d != "" {
		c.Fail("encoding", "%s\n%s", d, desc)
		return nil, want, false
	}
	c.Note("encodings compared")
	c.NoteN("tokens compared", len(want.T))
	c.NoteN("overflowing parts compared", len(want.Over))
	return got, want, true
}

func pipeline(c *core.C, o gen.Opts, n int) {
	p := gen.Make(c.R, o)
	c.Sample("tokenizer", p.String())
	for i := 0; i < n && !c.Failed(); i++ {
		a, b := inputs(c.R, p, true)
		got, _, ok := encodeBoth(c, p, a, b, c.R.Intn(2) == 0)
		if ok && got.Len() > 2 {
			c.Sample("encoding", fmt.Sprintf("%s -> %+q", pairStr(a, b), got.Tokens))
		}
	}
	if !c.Failed() && c.R.Intn(4) == 0 {
		failingParts(c, p)
	}
}

// also gives a run that, every so many cases, encodes with a whole tokenizer as well, one that has the parts in question.
func also(run func(*core.C), every int, o gen.Opts) func(*core.C) {
	return func(c *core.C) {
		run(c)
		if !c.Failed() && c.Idx%every == 0 {
			pipeline(c, o, 4)
			c.Note("whole tokenizers")
		}
	}
}
