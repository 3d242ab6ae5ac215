package props

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/sugarme/tokenizer"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "P24", Quick: 900, Thorough: 40000,
		Rule: "each case is a history of encodings, batches, decodings, vocabulary queries and configuration changes on one random tokenizer; results already given out are snapshotted and some of them overwritten, truncated, padded or merged on the way; every result is compared with that of a fresh twin which has seen nothing but the lasting changes, and all inputs and other results with their snapshots after every step; non-trivial: an input given again after others or after a result of it was overwritten",
		Run:  histories})
}

// kept is a result given out before.
type kept struct {
	e    *tokenizer.Encoding
	snap *tokenizer.Encoding
	what string
}

// scribble overwrites all that can be reached from an encoding.
func scribble(e *tokenizer.Encoding) {
	for _, xs := range [][]int{e.Ids, e.TypeIds, e.SpecialTokenMask, e.AttentionMask, e.Words} {
		xs = xs[:cap(xs)]
		for i := range xs {
			xs[i] = -77
		}
	}
	for i := range e.Tokens {
		e.Tokens[i] = "scribbled"
	}
	offs := e.Offsets[:cap(e.Offsets)]
	for _, o := range offs {
		o = o[:cap(o)]
		for i := range o {
			o[i] = -88
		}
	}
	for k, v := range e.SequenceRanges {
		for i := range v {
			v[i] = -99
		}
		delete(e.SequenceRanges, k)
	}
	if e.SequenceRanges != nil {
		e.SequenceRanges[7] = tokenizer.NewRange(0, 1)
	}
	for i := range e.Overflowing {
		scribble(&e.Overflowing[i])
	}
	e.Ids = append(e.Ids, 1)
	e.Overflowing = append(e.Overflowing, tokenizer.Encoding{})
}

type question struct {
	a, b    *ref.Input
	special bool
	chars   bool
}

func (q question) String() string {
	return fmt.Sprintf("special=%v chars=%v %s", q.special, q.chars, pairStr(*q.a, q.b))
}

func (q question) ask(tk *tokenizer.Tokenizer, in tokenizer.EncodeInput) (*tokenizer.Encoding, error) {
	if q.chars {
		return tk.EncodeCharOffsets(in, q.special)
	}
	return tk.Encode(in, q.special)
}

func histories(c *core.C) {
	r := c.R
	seed := r.Int63()
	opts := gen.Opts{Trunc: true, Pad: true, Script: r.Intn(8) == 0, Dec: true}
	make := func() *gen.Pipe { return gen.Make(rand.New(rand.NewSource(seed)), opts) }
	p := make()
	var calls []gen.AddedCall // lasting changes
	fresh := func() *tokenizer.Tokenizer {
		q := make()
		for _, x := range calls {
			gen.AddTo(q.Real, ref.NewAddedVocab(nil, 0), x)
		}
		return q.Real
	}
	name := p.String()
	hist := []string{}
	note := func(f string, a ...any) {
		hist = append(hist, fmt.Sprintf(f, a...))
		c.Detail("%s :: %s", name, strings.Join(hist, " ; "))
	}
	desc := func() string { return name + " :: " + strings.Join(hist, " ; ") }
	var qs []question
	for i := 0; i < 5; i++ {
		a, b := inputs(r, p, true)
		_, _, _ = p.Ref.Encode(a, b, true)
		qs = append(qs, question{a: &a, b: b, special: r.Intn(2) == 0, chars: r.Intn(4) == 0})
	}
	// questions whose answers have few windows
	var ok []question
	for _, q := range qs {
		w, _, _ := p.Ref.Encode(*q.a, q.b, q.special)
		if len(w.Over) <= 40 {
			ok = append(ok, q)
		}
	}
	if len(ok) == 0 {
		return
	}
	qs = ok
	asked := map[int]int{}
	var pool []kept
	repeat := false
	var sib *gen.Pipe
	truth := func(q question) (*tokenizer.Encoding, string) {
		e, err := q.ask(fresh(), gen.RealEncodeInput(*q.a, q.b))
		if err != nil {
			return nil, err.Error()
		}
		return deepEnc(e), ""
	}
	settled := func() bool {
		for _, k := range pool {
			if !sameEnc(k.e, k.snap) {
				c.Fail("result", "an encoding given out before (%s) has changed: %s was %s: %s", k.what, ref.Show(toT2(k.e)), ref.Show(toT2(k.snap)), desc())
				return false
			}
		}
		return true
	}
	compare := func(q question, e *tokenizer.Encoding, err error, how string) bool {
		want, werr := truth(q)
		switch {
		case (err != nil) != (werr != ""):
			c.Fail("error", "%s gives error %v, a fresh tokenizer %q: %s", how, err, werr, desc())
			return false
		case err != nil:
			c.Note("errors")
			return true
		case !sameEnc(e, want):
			c.Fail("encoding", "%s gives %s, a fresh tokenizer %s (overflowing %d and %d): %s", how, ref.Show(toT2(e)), ref.Show(toT2(want)), len(e.Overflowing), len(want.Overflowing), desc())
			return false
		}
		c.Note("encodings compared with a fresh tokenizer's")
		return true
	}
	for step := 6 + r.Intn(14); step > 0 && !c.Failed(); step-- {
		i := r.Intn(len(qs))
		q := qs[i]
		switch op := r.Intn(15); op {
		default:
			if asked[i] > 0 {
				repeat = true
			}
			asked[i]++
			note("encode #%d %s", i, q)
			in := gen.RealEncodeInput(*q.a, q.b)
			wa, wb := append([]string{}, q.a.Words...), []string(nil)
			if q.b != nil {
				wb = append(wb, q.b.Words...)
			}
			e, err := q.ask(p.Real, in)
			if !compare(q, e, err, "encoding it") {
				return
			}
			if !sameStrings(wa, q.a.Words) || q.b != nil && !sameStrings(wb, q.b.Words) {
				c.Fail("input", "the words given were changed: %s", desc())
				return
			}
			if err == nil {
				pool = append(pool, kept{e, deepEnc(e), q.String()})
				if len(calls) == 0 && !q.chars {
					// nor does it depend on what other tokenizers did
					want, _, _ := p.Ref.Encode(*q.a, q.b, q.special)
					if d := diffEnc(e, want, p.Ref.Post); d != "" {
						c.Fail("reference", "%s: %s", d, desc())
						return
					}
					c.Note("encodings compared with the reference")
				}
			}
		case 6, 7:
			// a batch, with one input twice
			var ins []tokenizer.EncodeInput
			var which []int
			for k := 1 + r.Intn(4); k > 0; k-- {
				j := r.Intn(len(qs))
				if qs[j].chars || qs[j].special != q.special {
					continue
				}
				ins, which = append(ins, gen.RealEncodeInput(*qs[j].a, qs[j].b)), append(which, j)
			}
			if len(ins) == 0 {
				continue
			}
			note("batch of %v", which)
			es, err := p.Real.EncodeBatch(ins, q.special)
			ws, werr := fresh().EncodeBatch(ins, q.special)
			if (err != nil) != (werr != nil) || len(es) != len(ws) {
				c.Fail("batch", "a batch gives %d encodings (%v), %d (%v) by a fresh tokenizer: %s", len(es), err, len(ws), werr, desc())
				return
			}
			for k := range es {
				if !sameEnc(&es[k], deepEnc(&ws[k])) {
					c.Fail("batch", "encoding %d of a batch is %s, a fresh tokenizer's %s: %s", k, ref.Show(toT2(&es[k])), ref.Show(toT2(&ws[k])), desc())
					return
				}
				pool = append(pool, kept{&es[k], deepEnc(&es[k]), "batch"})
			}
			c.Note("batches")
		case 8, 9:
			if len(pool) == 0 {
				continue
			}
			k := r.Intn(len(pool))
			x := pool[k]
			switch r.Intn(4) {
			case 0:
				note("truncate result %d", k)
				x.e.Truncate(r.Intn(4), 0)
			case 1:
				note("pad result %d", k)
				x.e.Pad(x.e.Len()+r.Intn(5), 1, 1, "[PAD]", gen.Pick(r, tokenizer.Left, tokenizer.Right))
			case 2:
				j := r.Intn(len(pool))
				if j == k {
					continue
				}
				note("merge result %d into %d", j, k)
				x.e.MergeWith(pool[j].e, r.Intn(2) == 0)
			default:
				note("overwrite result %d", k)
			}
			pool = append(pool[:k:k], pool[k+1:]...)
			if !settled() {
				return
			}
			scribble(x.e)
			c.Note("results overwritten")
		case 10:
			// decode
			var ids []int
			for k := r.Intn(10); k > 0; k-- {
				ids = append(ids, r.Intn(p.Real.GetVocabSize(true)+3))
			}
			was := append([]int{}, ids...)
			skip := r.Intn(2) == 0
			note("decode %v skip=%v", ids, skip)
			got := p.Real.Decode(ids, skip)
			if w := fresh().Decode(append([]int{}, ids...), skip); got != w {
				c.Fail("decode", "decodes to %q, by a fresh tokenizer to %q: %s", got, w, desc())
				return
			}
			if !eqInts(ids, was) {
				c.Fail("input", "ids were changed to %v: %s", ids, desc())
				return
			}
			c.Note("decodings")
		case 11:
			// the vocabulary
			with := r.Intn(2) == 0
			note("overwrite vocabulary %v", with)
			v := p.Real.GetVocab(with)
			if d := diffVocab(v, fresh().GetVocab(with)); d != "" {
				c.Fail("vocab", "%s: %s", d, desc())
				return
			}
			for t := range v {
				v[t] = r.Intn(5)
			}
			v["brand new"] = 3
			c.Note("vocabularies overwritten")
			repeat = true
		case 12:
			// tokens added
			if r.Intn(2) == 0 {
				ts := gen.AddedTokens(r, p.Texts, 0)
				for _, x := range ts {
					note("add %+v", x)
					var real []tokenizer.AddedToken
					for _, t := range x.Toks {
						real = append(real, gen.RealAdded(t, x.Special))
					}
					was := append([]tokenizer.AddedToken{}, real...)
					if x.Special {
						p.Real.AddSpecialTokens(real)
					} else {
						p.Real.AddTokens(real)
					}
					for k := range real {
						if real[k] != was[k] {
							c.Fail("input", "token %d given was changed to %+v: %s", k, real[k], desc())
							return
						}
						real[k] = tokenizer.NewAddedToken("the", true)
					}
					calls = append(calls, x)
				}
				continue
			}
			// lists of tokens
			note("special tokens")
			got, want := p.Real.GetSpecialTokens(), fresh().GetSpecialTokens()
			sort.Strings(got)
			sort.Strings(want)
			if !sameStrings(got, want) {
				c.Fail("special", "special tokens %+q, by a fresh tokenizer %+q: %s", got, want, desc())
				return
			}
			for k := range got {
				got[k] = "x"
			}
		case 14:
			// another tokenizer gets the same
			if sib == nil {
				o := opts
				if r.Intn(4) > 0 {
					o.Model = strings.SplitN(p.Model.Name, "(", 2)[0]
				}
				if o.Model != "bpe" && o.Model != "wordpiece" && o.Model != "wordlevel" && o.Model != "unigram" {
					o.Model = ""
				}
				sib = gen.Make(r, o)
			}
			if !validInput(sib, *q.a) || q.b != nil && !validInput(sib, *q.b) {
				continue
			}
			note("another tokenizer encodes #%d", i)
			encodeBoth(c, sib, *q.a, q.b, q.special)
			c.Note("encodings by another tokenizer")
			repeat = true
		case 13:
			// something else for a while
			tr, pd := p.Real.GetTruncation(), p.Real.GetPadding()
			note("encode with another truncation and padding")
			p.Real.WithTruncation(&tokenizer.TruncationParams{MaxLength: 1 + r.Intn(9), Strategy: tokenizer.LongestFirst})
			p.Real.WithPadding(nil)
			if w, _, _ := p.Ref.Encode(*q.a, q.b, q.special); len(w.T) < 40 {
				q.ask(p.Real, gen.RealEncodeInput(*q.a, q.b))
			}
			p.Real.WithTruncation(tr)
			p.Real.WithPadding(pd)
			// parameters are not changed by encoding
			if (p.Trunc == nil) != (tr == nil) || tr != nil && *tr != *gen.RealTrunc(p.Trunc) {
				c.Fail("params", "truncation %+v was %+v: %s", tr, p.Trunc, desc())
				return
			}
			if (p.Pad == nil) != (pd == nil) || pd != nil && *pd != *gen.RealPad(p.Pad) {
				c.Fail("params", "padding %+v was %+v: %s", pd, p.Pad, desc())
				return
			}
			repeat = true
		}
		if !settled() {
			return
		}
	}
	c.Eval(desc(), repeat)
	c.Sample("history", desc())
}

// toT2 shows an encoding that may be broken.
func toT2(e *tokenizer.Encoding) []ref.T {
	if e == nil || structural(e) != "" {
		return nil
	}
	return toT(e)
}
