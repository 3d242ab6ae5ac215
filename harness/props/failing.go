package props

import (
	"errors"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"

	"verif/harness/core"
	"verif/harness/gen"
)

var errPart = errors.New("this part fails")

// failsOn is a part that fails when asked for the n-th time, and changes nothing otherwise.
type failsOn struct{ n, asked int }

func (f *failsOn) next() error {
	f.asked++
	if f.asked == f.n {
		return errPart
	}
	return nil
}

func (f *failsOn) Normalize(n *normalizer.NormalizedString) (*normalizer.NormalizedString, error) {
	if err := f.next(); err != nil {
		return nil, err
	}
	return n, nil
}

func (f *failsOn) PreTokenize(p *tokenizer.PreTokenizedString) (*tokenizer.PreTokenizedString, error) {
	if err := f.next(); err != nil {
		return nil, err
	}
	return p, nil
}

// failingModel fails on the n-th word it is given.
type failingModel struct {
	tokenizer.Model
	f *failsOn
}

func (m failingModel) Tokenize(s string) ([]tokenizer.Token, error) {
	if err := m.f.next(); err != nil {
		return nil, err
	}
	return m.Model.Tokenize(s)
}

// failingNormalizer puts a part that fails somewhere into a sequence of normalizers.
func failingNormalizer(c *core.C, x gen.Norm, text string) {
	ns := []normalizer.Normalizer{x.Real, &failsOn{n: 1}, x.Real}[c.R.Intn(2) : 2+c.R.Intn(2)]
	if got, err := normalizer.NewSequence(ns).Normalize(normalizer.NewNormalizedFrom(text)); err == nil {
		c.Fail("error-lost", "a sequence with a part that fails gives %v, %v on %+q", got, err, text)
	}
	c.Note("parts that fail")
}

func failingPreTokenizer(c *core.C, x gen.PT, text string) {
	ps := []tokenizer.PreTokenizer{x.Real, &failsOn{n: 1}, x.Real}[c.R.Intn(2) : 2+c.R.Intn(2)]
	if got, err := pretokenizer.NewSequence(ps).PreTokenize(tokenizer.NewPreTokenizedString(text)); err == nil {
		c.Fail("error-lost", "a sequence with a part that fails gives %v, %v on %+q", got, err, text)
	}
	c.Note("parts that fail")
}

// failingParts makes the pre-tokenizer, or the model on one of its words, of a tokenizer fail: an error and no encoding, and
// the tokenizer as good as before.
func failingParts(c *core.C, p *gen.Pipe) {
	r := c.R
	a, b := inputs(r, p, true)
	special := r.Intn(2) == 0
	if _, ok, cut := p.Ref.Encode(a, b, special); !ok || !cut {
		return
	}
	// how often each is asked
	count := &failsOn{}
	if r.Intn(2) == 0 {
		old := p.Real.GetPreTokenizer()
		set := func(f *failsOn) {
			ps := []tokenizer.PreTokenizer{f}
			if old != nil {
				ps = append(ps, old)
			}
			p.Real.WithPreTokenizer(pretokenizer.NewSequence(ps))
		}
		set(count)
		defer p.Real.WithPreTokenizer(old)
		failOnce(c, p, count, set, gen.RealEncodeInput(a, b), special)
	} else {
		old := p.Real.GetModel()
		p.Real.WithModel(failingModel{old, count})
		defer p.Real.WithModel(old)
		failOnce(c, p, count, func(f *failsOn) { p.Real.WithModel(failingModel{old, f}) }, gen.RealEncodeInput(a, b), special)
	}
}

func failOnce(c *core.C, p *gen.Pipe, count *failsOn, set func(*failsOn), in tokenizer.EncodeInput, special bool) {
	p.Real.Encode(in, special)
	if count.asked == 0 {
		return
	}
	f := &failsOn{n: 1 + c.R.Intn(count.asked)}
	set(f)
	var e *tokenizer.Encoding
	var err error
	switch c.R.Intn(3) {
	case 0:
		e, err = p.Real.Encode(in, special)
	case 1:
		e, err = p.Real.EncodeCharOffsets(in, special)
	default:
		var es []tokenizer.Encoding
		if es, err = p.Real.EncodeBatch([]tokenizer.EncodeInput{in}, special); len(es) > 0 && err != nil {
			e = &es[0]
		}
	}
	if err == nil || e != nil {
		c.Fail("error-lost", "a part that fails when asked for the %d. time of %d gives %v, %v: %s", f.n, count.asked, e, err, p)
	}
	c.Note("parts that fail")
}
