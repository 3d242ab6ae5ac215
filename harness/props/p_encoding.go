package props

import (
	"fmt"
	"math/rand"
	"reflect"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/processor"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "P05", Quick: 1600, Thorough: 200000,
		Rule: "each case truncates encodings of random lengths to random maxima with random strides and strategies, directly, in pairs, and through a tokenizer; the windows are compared with a reference and put together again; non-trivial: something was cut off",
		Run:  also(truncation, 2, gen.Opts{Must: "trunc post", Pad: true})})
	core.Register(&core.Prop{ID: "P06", Quick: 3000, Thorough: 150000,
		Rule: "each case pads batches of encodings of ragged lengths with overflowing parts, directly and through EncodeBatch; every field before and after is compared; non-trivial: some position was padded",
		Run:  also(padding, 3, gen.Opts{Must: "pad", Trunc: true})})
	core.Register(&core.Prop{ID: "P07", Quick: 2500, Thorough: 200000,
		Rule: "each case makes a random post-processor and runs it on one or two made-up encodings with overflowing parts, with and without special tokens; compared with the reference processor, and the number of tokens with the announced one; non-trivial: special tokens were added",
		Run:  also(postProcessors, 2, gen.Opts{Must: "post", Trunc: true})})
	core.Register(&core.Prop{ID: "P22", Quick: 3000, Thorough: 150000,
		Rule: "each case takes a made-up encoding or one made by a random tokenizer (with its overflowing parts) and asks every query at every position inside and around it; non-trivial: at least two tokens",
		Run:  queries})
	core.Register(&core.Prop{ID: "P23", Quick: 4000, Thorough: 200000,
		Rule: "each case merges two to five made-up encodings with overflowing parts, with and without growing offsets; compared with the reference, and what was merged in with snapshots; non-trivial: both parts have tokens",
		Run:  merging})
}

// fromT makes a real encoding of one part.
func fromT(ts []ref.T, ranges bool) *tokenizer.Encoding {
	n := len(ts)
	e := &tokenizer.Encoding{Ids: make([]int, n), TypeIds: make([]int, n), Tokens: make([]string, n), Offsets: make([][]int, n),
		SpecialTokenMask: make([]int, n), AttentionMask: make([]int, n), Words: make([]int, n), Overflowing: []tokenizer.Encoding{}}
	if ranges {
		e.SequenceRanges = map[int]tokenizer.Range{}
	}
	for i, t := range ts {
		e.Ids[i], e.TypeIds[i], e.Tokens[i], e.Offsets[i] = t.Id, t.Type, t.Tok, []int{t.S, t.E}
		e.SpecialTokenMask[i], e.AttentionMask[i], e.Words[i] = t.Spec, t.Attn, t.Word
		if ranges && t.Seq >= 0 {
			e.SequenceRanges[t.Seq] = append(e.SequenceRanges[t.Seq], i)
		}
	}
	return e
}

func fromEnc(e ref.Enc, ranges bool) *tokenizer.Encoding {
	out := fromT(e.T, ranges)
	for _, o := range e.Over {
		out.Overflowing = append(out.Overflowing, *fromT(o, ranges))
	}
	return out
}

// someTs makes n tokens of a sequence.
func someTs(r *rand.Rand, n, seq int) []ref.T {
	var ts []ref.T
	at, word := 0, 0
	for i := 0; i < n; i++ {
		if r.Intn(3) == 0 {
			at += r.Intn(3)
			word += gen.Pick(r, 1, 1, 2)
		}
		w := 1 + r.Intn(4)
		if r.Intn(12) == 0 {
			w = 0
		}
		tok := gen.Pick(r, "a", "ab", "Ġ", "Ġa", "aĠ", "ĠĠa", "aĠĠ", "##x", "中", "é", "ĠéĠ")
		id := r.Intn(500)
		if r.Intn(40) == 0 {
			id = gen.Pick(r, 65535, 65536, 1<<20, 1<<31-1)
		}
		ts = append(ts, ref.T{Id: id, Type: seq, Tok: tok, S: at, E: at + w, Attn: 1, Word: word, Seq: seq})
		at += w
	}
	return ts
}

// someEnc makes an encoding, maybe with overflowing parts.
func someEnc(r *rand.Rand, seq int) ref.Enc {
	n := gen.Pick(r, 0, 1, 2, 3, 5, 8, 13)
	if r.Intn(200) == 0 {
		// a long one, with few windows
		ts := someTs(r, 100+r.Intn(1200), seq)
		if r.Intn(2) == 0 {
			m := len(ts)/5 + r.Intn(len(ts))
			return ref.Window(ts, m, r.Intn(3))
		}
		return ref.Enc{T: ts}
	}
	ts := someTs(r, n+r.Intn(3), seq)
	if r.Intn(2) == 0 && len(ts) > 1 {
		m := 1 + r.Intn(len(ts))
		return ref.Window(ts, m, r.Intn(m))
	}
	return ref.Enc{T: ts}
}

func deepEnc(e *tokenizer.Encoding) *tokenizer.Encoding {
	if e == nil {
		return nil
	}
	c := *e
	c.Ids, c.TypeIds, c.Tokens = append([]int{}, e.Ids...), append([]int{}, e.TypeIds...), append([]string{}, e.Tokens...)
	c.SpecialTokenMask, c.AttentionMask, c.Words = append([]int{}, e.SpecialTokenMask...), append([]int{}, e.AttentionMask...), append([]int{}, e.Words...)
	c.Offsets = [][]int{}
	for _, o := range e.Offsets {
		c.Offsets = append(c.Offsets, append([]int{}, o...))
	}
	c.SequenceRanges = map[int]tokenizer.Range{}
	for k, v := range e.SequenceRanges {
		c.SequenceRanges[k] = append(tokenizer.Range{}, v...)
	}
	c.Overflowing = []tokenizer.Encoding{}
	for i := range e.Overflowing {
		c.Overflowing = append(c.Overflowing, *deepEnc(&e.Overflowing[i]))
	}
	return &c
}

// sameEnc says whether an encoding still is what a snapshot says.
func sameEnc(a, snap *tokenizer.Encoding) bool { return reflect.DeepEqual(deepEnc(a), snap) }

func encDesc(e ref.Enc) string { return e.String() }

// rejoin puts windows together again.
func rejoin(first []ref.T, over [][]ref.T, stride int) ([]ref.T, string) {
	out := append([]ref.T{}, first...)
	prev := first
	for i, o := range over {
		if len(o) <= stride && len(o) > 0 && i < len(over)-1 {
			return nil, fmt.Sprintf("window %d has nothing new", i)
		}
		if len(o) < stride || len(prev) < stride {
			return nil, fmt.Sprintf("window %d is shorter than the stride", i)
		}
		if !reflect.DeepEqual(append([]ref.T{}, o[:stride]...), append([]ref.T{}, prev[len(prev)-stride:]...)) {
			return nil, fmt.Sprintf("window %d does not repeat the last %d tokens of the one before", i, stride)
		}
		out = append(out, o[stride:]...)
		prev = o
	}
	return out, ""
}

func truncation(c *core.C) {
	r := c.R
	for k := 0; k < 12 && !c.Failed(); k++ {
		// directly
		ts := someTs(r, gen.Pick(r, 0, 1, 2, 5, 9, 17, 30, r.Intn(60)), 0)
		m := gen.Pick(r, 1, 2, 3, 4, 7, len(ts), len(ts)+1, max(len(ts)-1, 0), r.Intn(len(ts)+3))
		if r.Intn(200) == 0 {
			ts = someTs(r, 100+r.Intn(1500), 0)
			m = gen.Pick(r, 128, 512, 1+len(ts)/(1+r.Intn(200)), len(ts), len(ts)-1, len(ts)+1)
		}
		stride := gen.Pick(r, 0, 0, 1, 2, m-1, m, r.Intn(m+2))
		if len(ts) > 100 {
			stride = min(stride, m/2)
		}
		if stride < 0 {
			stride = 0
		}
		desc := fmt.Sprintf("truncate %s to %d stride %d", ref.Show(ts), m, stride)
		c.Eval(desc, m < len(ts) && m > stride)
		e := fromT(ts, r.Intn(2) == 0)
		if r.Intn(6) == 0 {
			e.Words = nil // optional
			for i := range ts {
				ts[i].Word = -1
			}
		}
		got, err := e.Truncate(m, stride)
		if bad := stride >= m; bad != (err != nil) {
			c.Fail("error", "error %v: %s", err, desc)
			return
		} else if !bad {
			w := ref.Window(ts, m, stride)
			if d := diffEnc(got, w, &ref.Post{}); d != "" {
				c.Fail("truncate", "%s\n%s", d, desc)
				return
			}
			if m < len(ts) {
				var over [][]ref.T
				for i := range got.Overflowing {
					over = append(over, noSeqs(toT(&got.Overflowing[i])))
					if got.Overflowing[i].Len() > m {
						c.Fail("bound", "window of %d tokens: %s", got.Overflowing[i].Len(), desc)
						return
					}
				}
				back, why := rejoin(noSeqs(toT(got)), over, stride)
				if why != "" || !reflect.DeepEqual(back, noSeqs(ts)) {
					c.Fail("conserve", "%s: windows give back %s: %s", why, ref.Show(back), desc)
					return
				}
				c.NoteN("windows seen", 1+len(over))
				c.Note("encodings truncated")
				if d := apart(got); d != "" {
					c.Fail("apart", "%s: %s", d, desc)
					return
				}
			}
		}
		// in pairs
		a, b := someTs(r, r.Intn(16), 0), someTs(r, r.Intn(16), 1)
		if r.Intn(200) == 0 {
			a, b = someTs(r, r.Intn(700), 0), someTs(r, gen.Pick(r, len(a), r.Intn(16), r.Intn(700)), 1)
		}
		hasB := r.Intn(3) > 0
		if !hasB {
			b = nil
		}
		t := ref.Trunc{Max: 1 + r.Intn(len(a)+len(b)+2), Strategy: r.Intn(3)}
		t.Stride = r.Intn(t.Max)
		if r.Intn(4) > 0 {
			t.Stride = r.Intn(min(t.Max, 3))
		}
		x, y, ok := t.Cut(a, b, hasB, t.Max)
		if !ok {
			c.Note("skipped: impossible truncation")
			continue
		}
		desc = fmt.Sprintf("truncate %s\n and (%v) %s\n by %+v", ref.Show(a), hasB, ref.Show(b), t)
		c.Eval(desc, len(a)+len(b) > t.Max)
		var pair *tokenizer.Encoding
		if hasB {
			pair = fromT(b, false)
		}
		ga, gb := tokenizer.TruncateEncodings(fromT(a, false), pair, gen.RealTrunc(&t))
		if d := diffEnc(ga, x, &ref.Post{}); d != "" {
			c.Fail("first", "%s\n%s", d, desc)
			return
		}
		if (gb != nil) != hasB {
			c.Fail("pair", "second part %v: %s", gb, desc)
			return
		}
		n := ga.Len()
		if hasB {
			if d := diffEnc(gb, y, &ref.Post{}); d != "" {
				c.Fail("second", "%s\n%s", d, desc)
				return
			}
			n += gb.Len()
		}
		if n > t.Max {
			c.Fail("bound", "%d tokens left: %s", n, desc)
			return
		}
		c.Note("pairs truncated")
	}
	// through a tokenizer
	if c.Failed() || c.Idx%4 > 0 {
		return
	}
	p := gen.Make(r, gen.Opts{})
	p.Short = true // it is truncated, into many windows
	t := ref.Trunc{Max: 1 + r.Intn(10), Strategy: r.Intn(3)}
	t.Stride = r.Intn(t.Max)
	for k := 0; k < 4; k++ {
		a, b := inputs(r, p, true)
		special := r.Intn(2) == 0
		in := gen.RealEncodeInput(a, b)
		p.Real.WithTruncation(nil)
		full, err := p.Real.Encode(in, special)
		if err != nil {
			continue
		}
		p.Ref.Trunc = &t
		_, ok, cut := p.Ref.Encode(a, b, special)
		p.Ref.Trunc = nil
		if !ok {
			continue
		}
		added := 0
		if special && p.Post != nil {
			added = p.Post.Real.AddedTokens(b != nil)
		}
		p.Real.WithTruncation(gen.RealTrunc(&t))
		desc := fmt.Sprintf("%s trunc=%+v special=%v in=%s", p, t, special, pairStr(a, b))
		got, err := p.Real.Encode(in, special)
		c.Eval(desc, full.Len() > t.Max)
		if !cut {
			c.Note("impossible truncations")
			if err == nil {
				c.Fail("no-error", "a truncation that is impossible gave no error: %s", desc)
				return
			}
			continue
		}
		if err != nil {
			c.Fail("error", "%v: %s", err, desc)
			return
		}
		if got.Len() > max(t.Max, added) {
			c.Fail("bound", "%d tokens: %s", got.Len(), desc)
			return
		}
		if full.Len() <= t.Max && len(got.Overflowing) > 0 || full.Len() <= t.Max && got.Len() != full.Len() {
			c.Fail("needless", "%d of %d tokens left, %d overflowing parts: %s", got.Len(), full.Len(), len(got.Overflowing), desc)
			return
		}
		// every token of the full encoding is somewhere
		have := map[string]int{}
		key := func(e *tokenizer.Encoding, i int) string {
			return fmt.Sprintf("%d %q %v", e.Ids[i], e.Tokens[i], e.Words)
		}
		key = func(e *tokenizer.Encoding, i int) string {
			w := -1
			if i < len(e.Words) {
				w = e.Words[i]
			}
			return fmt.Sprintf("%d %q %d", e.Ids[i], e.Tokens[i], w)
		}
		for i := range got.Ids {
			have[key(got, i)]++
		}
		for k := range got.Overflowing {
			for i := range got.Overflowing[k].Ids {
				have[key(&got.Overflowing[k], i)]++
			}
		}
		for i := range full.Ids {
			if have[key(full, i)] == 0 {
				c.Fail("lost", "token %d %q of the full encoding is nowhere: %s", i, full.Tokens[i], desc)
				return
			}
		}
		c.Note("tokenizer truncations")
	}
}

// apart says whether the windows of an encoding have nothing to do with each other: each goes on when the others grow,
// and knows only of its own tokens.
func apart(e *tokenizer.Encoding) string {
	parts := []*tokenizer.Encoding{e}
	for i := range e.Overflowing {
		parts = append(parts, &e.Overflowing[i])
	}
	var snaps []*tokenizer.Encoding
	for i, p := range parts {
		for q, rg := range p.SequenceRanges {
			for _, x := range rg {
				if x < 0 || x >= p.Len() {
					return fmt.Sprintf("window %d of %d tokens has token %d in sequence %d", i, p.Len(), x, q)
				}
			}
		}
		x := *p
		x.Overflowing = nil
		snaps = append(snaps, deepEnc(&x))
	}
	for _, p := range parts {
		x := *p
		x.Overflowing = nil
		x.MergeWith(fromT([]ref.T{{Id: -1, Type: -1, Tok: "grown", S: 1, E: 1, Spec: 7, Attn: 7, Word: 77, Seq: -1}, {Id: -2, Seq: -1}}, false), false)
		x = *p
		x.Overflowing = nil
		x.Pad(p.Len()+2, -3, -3, "pad", tokenizer.Right)
	}
	for i, p := range parts {
		x := *p
		x.Overflowing = nil
		if !sameEnc(&x, snaps[i]) {
			return fmt.Sprintf("window %d of %d changes when others grow", i, len(parts))
		}
	}
	return ""
}

func noSeqs(ts []ref.T) []ref.T {
	out := append([]ref.T{}, ts...)
	for i := range out {
		out[i].Seq = -1
	}
	return out
}

func padding(c *core.C) {
	r := c.R
	for k := 0; k < 6 && !c.Failed(); k++ {
		var es []ref.Enc
		var real []tokenizer.Encoding
		size := 1 + r.Intn(5)
		if r.Intn(300) == 0 {
			size = 50 + r.Intn(500)
		}
		for i := size; i > 0; i-- {
			e := someEnc(r, 0)
			if r.Intn(3) == 0 {
				e = ref.Cat(e, someEnc(r, 1))
			}
			es = append(es, e)
			re := *fromEnc(e, true)
			if len(re.SequenceRanges) == 0 {
				re.SequenceRanges = nil
			}
			if r.Intn(8) == 0 && len(e.Over) == 0 {
				re.Words = nil // optional
				for j := range e.T {
					e.T[j].Word = -1
				}
			}
			real = append(real, re)
		}
		p := ref.Pad{Fixed: gen.Pick(r, -1, -1, 0, 1, 4, 10, 25, gen.Pick(r, 25, 25, 25, 128, 512)), Left: r.Intn(2) == 0, Id: r.Intn(9), TypeId: r.Intn(3), Tok: gen.Pick(r, "[PAD]", "", "é")}
		want := p.All(es)
		desc := fmt.Sprintf("pad %+v of", p)
		for _, e := range es {
			desc += " {" + encDesc(e) + "}"
		}
		nt := false
		for i := range es {
			nt = nt || len(want[i].T) > len(es[i].T)
		}
		c.Eval(desc, nt)
		got := tokenizer.PadEncodings(real, *gen.RealPad(&p))
		if len(got) != len(want) {
			c.Fail("count", "%d encodings of %d: %s", len(got), len(want), desc)
			return
		}
		for i := range got {
			if d := diffEnc(&got[i], want[i], nil); d != "" {
				c.Fail("pad", "encoding %d: %s\n%s", i, d, desc)
				return
			}
			c.NoteN("positions padded", len(want[i].T)-len(es[i].T))
		}
		// one alone
		e := someEnc(r, 0)
		n := r.Intn(20)
		re := fromEnc(e, true)
		if len(e.Over) == 0 {
			cp := *re
			snap := deepEnc(re)
			cp.Pad(n, p.Id, p.TypeId, p.Tok, gen.RealPad(&p).Direction)
			if !sameEnc(re, snap) {
				c.Fail("copied", "padding a copy to %d %+v changes %s", n, p, encDesc(e))
				return
			}
		}
		g := re.Pad(n, p.Id, p.TypeId, p.Tok, gen.RealPad(&p).Direction)
		if d := diffEnc(g, e.Wrap(func(ts []ref.T) []ref.T { return p.To(n, ts) }), nil); d != "" {
			c.Fail("pad-one", "%s\npad to %d %+v of %s", d, n, p, encDesc(e))
			return
		}
	}
	if c.Failed() || c.Idx%3 > 0 {
		return
	}
	// through a batch
	p := gen.Make(r, gen.Opts{Trunc: true, Pad: true})
	if p.Pad == nil {
		p.Pad = &ref.Pad{Fixed: -1, Left: r.Intn(2) == 0, Tok: "[PAD]"}
		p.Real.WithPadding(gen.RealPad(p.Pad))
	}
	pad := *p.Pad
	p.Ref.Pad = nil
	special := r.Intn(2) == 0
	var ins []tokenizer.EncodeInput
	var want []ref.Enc
	desc := fmt.Sprintf("%s special=%v batch", p, special)
	for i := gen.Pick(r, r.Intn(6), r.Intn(6), r.Intn(6), 8+r.Intn(30)); i >= 0; i-- {
		a, b := inputs(r, p, true)
		w, ok, cut := p.Ref.Encode(a, b, special)
		if !ok || !cut || len(w.Over) > 60 {
			continue
		}
		ins, want = append(ins, gen.RealEncodeInput(a, b)), append(want, w)
		desc += " " + pairStr(a, b)
	}
	if len(ins) == 0 {
		return
	}
	want = pad.All(want)
	c.Eval(desc, len(ins) > 1)
	got, err := p.Real.EncodeBatch(ins, special)
	if err != nil || len(got) != len(want) {
		c.Fail("batch", "%d encodings of %d, error %v: %s", len(got), len(want), err, desc)
		return
	}
	for i := range got {
		if d := diffEnc(&got[i], want[i], p.Ref.Post); d != "" {
			c.Fail("batch", "encoding %d: %s\n%s", i, d, desc)
			return
		}
	}
	c.Note("batches padded")
}

func postProcessors(c *core.C) {
	r := c.R
	if s := templates(c); s != "" {
		c.Fail("template", "%s", s)
		return
	}
	vocab := map[string]int{"[CLS]": 1, "[SEP]": 2, "<s>": 3, "</s>": 4, "[MASK]": 5}
	for k := 0; k < 6 && !c.Failed(); k++ {
		var p gen.Post
		if r.Intn(4) == 0 {
			p = stringTemplate(r)
		} else {
			p = gen.PostProcessor(r, vocab, r.Intn(3) == 0)
		}
		c.Sample("processor", p.Name)
		for j := 0; j < 4; j++ {
			a := someEnc(r, 0)
			var b *ref.Enc
			if r.Intn(2) == 0 {
				x := someEnc(r, 1)
				b = &x
			}
			special := r.Intn(4) > 0
			desc := fmt.Sprintf("%s special=%v on %s", p.Name, special, encDesc(a))
			if b != nil {
				desc += "\n and " + encDesc(*b)
			}
			added := p.Real.AddedTokens(b != nil)
			c.Eval(desc, special && added > 0)
			if w := p.Ref.Added(b != nil); added != w {
				c.Fail("announced", "announces %d added tokens, not %d: %s", added, w, desc)
				return
			}
			var rb *tokenizer.Encoding
			n := len(a.T)
			ra := fromEnc(a, false)
			ra.SetSequenceIds(0)
			if len(a.T) == 0 {
				ra.SequenceRanges = nil
			}
			for i := range ra.Overflowing {
				ra.Overflowing[i].SetSequenceIds(0)
			}
			if b != nil {
				rb = fromEnc(*b, false)
				rb.SetSequenceIds(1)
				if len(b.T) == 0 {
					rb.SequenceRanges = nil
				}
				for i := range rb.Overflowing {
					rb.Overflowing[i].SetSequenceIds(1)
				}
				n += len(b.T)
			}
			got := p.Real.Process(ra, rb, special)
			want := p.Ref.Process(a, b, special)
			if d := diffEnc(got, want, p.Ref); d != "" {
				c.Fail("process", "%s\n%s", d, desc)
				return
			}
			if special && got.Len() != n+added {
				c.Fail("announced", "announced %d, added %d tokens: %s", added, got.Len()-n, desc)
				return
			}
			c.Note("encodings processed")
			c.NoteN("overflowing parts processed", len(want.Over))
			// through a tokenizer with nothing else, the same processor again
			if j == 0 {
				if again := p.Real.AddedTokens(b != nil); again != added {
					c.Fail("announced", "announces %d after %d: %s", again, added, desc)
					return
				}
			}
		}
	}
}

// templates makes templates that are right or wrong, and asks whether they are.
func templates(c *core.C) string {
	r := c.R
	names := []string{"[CLS]", "[SEP]", "<s>", "é", "x"}
	var toks []tokenizer.Token
	var sts []processor.SpecialToken
	m := map[string]processor.SpecialToken{}
	size := map[string]int{}
	for _, n := range names {
		if r.Intn(4) > 0 {
			toks = append(toks, tokenizer.Token{Id: r.Intn(50), Value: n})
			size[n] = 1 + r.Intn(3)
			var ids []int
			var ts []string
			for i := 0; i < size[n]; i++ {
				ids, ts = append(ids, i), append(ts, n)
			}
			sts = append(sts, *processor.NewSpecialToken(n, ids, ts))
			m[n] = sts[len(sts)-1]
		}
	}
	var sp *processor.Tokens
	how := r.Intn(3)
	switch how {
	case 0:
		sp = processor.NewTokens(toks)
		for n := range size {
			size[n] = 1
		}
	case 1:
		sp = processor.NewTokensFrom(sts)
	default:
		sp = processor.NewTokensFromMap(m)
	}
	for i, s := range sts {
		if how == 0 {
			s = *processor.NewSpecialTokenFrom(toks[i].Value, toks[i].Id)
		}
		if got, ok := sp.GetItemByKey(s.Id); !ok || !reflect.DeepEqual(got, s) {
			return fmt.Sprintf("the special token %v is %v %v", s, got, ok)
		}
		if how < 2 {
			if got, ok := sp.GetItemByOrder(i); !ok || !reflect.DeepEqual(got, s) {
				return fmt.Sprintf("special token %d is %v %v, want %v", i, got, ok, s)
			}
		}
	}
	missing := false
	mk := func(seqs ...string) (t processor.Template, text string, n int) {
		var parts []string
		put := func() {
			for r.Intn(3) == 0 {
				s := gen.Pick(r, names...)
				k, ok := size[s]
				missing = missing || !ok
				n += k
				parts = append(parts, s)
			}
		}
		put()
		for _, s := range seqs {
			parts = append(parts, s)
			put()
		}
		for i, p := range parts {
			ty := -1
			if r.Intn(2) == 0 {
				ty = r.Intn(3)
				parts[i] = fmt.Sprintf("%s:%d", p, ty)
			}
			switch p {
			case "$A", "$B":
				t = append(t, processor.NewSequencePiece(p[1:], max(ty, 0)))
			default:
				t = append(t, processor.NewSpecialTokenPiece(p, max(ty, 0)))
			}
		}
		for i, p := range parts {
			if i > 0 {
				text += " "
			}
			text += p
		}
		return
	}
	single, sText, sn := mk("$A")
	seqs := gen.Pick(r, []string{"$A", "$B"}, []string{"$A", "$B"}, []string{"$B", "$A"}, []string{"$A"}, []string{"$B"}, []string{"$A", "$A"}, []string{"$A", "$B", "$A"})
	pair, pText, pn := mk(seqs...)
	if sText == "" || pText == "" {
		return ""
	}
	hasA, hasB := false, false
	for _, s := range seqs {
		hasA, hasB = hasA || s == "$A", hasB || s == "$B"
	}
	desc := fmt.Sprintf("template %q | %q with %v", sText, pText, size)
	c.Detail("%s", desc)
	// the texts are the pieces
	for _, x := range []struct {
		text string
		t    processor.Template
	}{{sText, single}, {pText, pair}} {
		if got, err := processor.NewTemplate(x.text); err != nil || !reflect.DeepEqual(got, x.t) {
			return fmt.Sprintf("%q is made into %d pieces, error %v: %s", x.text, len(got), err, desc)
		}
	}
	tp := processor.NewTemplateProcessing(single, pair, sp)
	if r.Intn(2) == 0 {
		tp = processor.NewTemplateProcessingFrom(&processor.TemplateProcessingDeserializer{Single: single, Pair: pair, SpecialTokens: sp})
	}
	b := tp.Builder()
	if r.Intn(2) == 0 {
		d := processor.DefaultTemplateProcessing()
		d.SpecialTokens = sp
		b = d.Builder()
		b.NewSingle(sText)
		b.NewPair(pText)
	}
	err := b.Validate()
	if bad := missing || !hasA || !hasB; bad != (err != nil) {
		return fmt.Sprintf("Validate gives %v, special tokens missing %v, first sequence %v, second %v: %s", err, missing, hasA, hasB, desc)
	}
	if err != nil {
		c.Note("templates refused")
	} else {
		c.Note("templates accepted")
	}
	if b.DefaultAdded(true) != sn || b.DefaultAdded(false) != pn || b.Build().AddedTokens(false) != sn || b.Build().AddedTokens(true) != pn {
		return fmt.Sprintf("announces %d %d %d %d added tokens, not %d and %d: %s", b.DefaultAdded(true), b.DefaultAdded(false), b.Build().AddedTokens(false), b.Build().AddedTokens(true), sn, pn, desc)
	}
	// texts that are no templates
	bad := gen.Pick(r, "$C", "$x:1", "[CLS]:x", "a:b:c", "$A:1:2", "$A:", "$$", "$Ax", "$A $B:b", "[CLS] $Z [SEP]")
	if t, err := processor.NewTemplate(bad); err == nil {
		return fmt.Sprintf("%q is made into a template of %d pieces", bad, len(t))
	}
	if _, err := processor.NewTemplate(7); err == nil {
		return "a number is made into a template"
	}
	for i, f := range []func(any){b.NewSingle, b.NewPair} {
		ok := func() (ok bool) {
			defer func() { ok = recover() == nil }()
			f(bad)
			return
		}()
		if ok {
			return fmt.Sprintf("the builder (%d) takes %q", i, bad)
		}
	}
	// the default leaves a sequence as it is
	a := someEnc(r, 0)
	ra := fromEnc(a, false)
	want := ref.TemplatePost([]ref.TPiece{{Seq: 0}}, nil).Process(a, nil, true)
	if d := diffEnc(processor.DefaultTemplateProcessing().Process(ra, nil, r.Intn(2) == 0), want, nil); d != "" {
		return "default template: " + d
	}
	return ""
}

// stringTemplate is a template given as strings.
func stringTemplate(r *rand.Rand) gen.Post {
	ids := map[string]int{"[CLS]": 1, "[SEP]": 0, "<s>": 7}
	mk := func(pair bool) (any, []ref.TPiece, string) {
		var parts []string
		var ps []ref.TPiece
		spec := func() {
			for r.Intn(5) < 2 {
				t := gen.Pick(r, "[CLS]", "[SEP]", "<s>")
				ty, suf := 0, ""
				if r.Intn(2) == 0 {
					ty = r.Intn(4)
					suf = fmt.Sprintf(":%d", ty)
				}
				parts = append(parts, t+suf)
				ps = append(ps, ref.TPiece{Seq: -1, Toks: []ref.Tok{{Id: ids[t], Value: t}}, Type: ty})
			}
		}
		seq := func(s int) {
			var t string
			ty := 0
			if s == 1 {
				t = gen.Pick(r, "$B", "$b")
			} else {
				t = gen.Pick(r, "$A", "$a", "$", "$0", "$1", "$2")
				if t[len(t)-1] <= '2' && t != "$" {
					ty = int(t[1] - '0')
				}
			}
			if r.Intn(2) == 0 {
				ty = r.Intn(4)
				t += fmt.Sprintf(":%d", ty)
			}
			parts = append(parts, t)
			ps = append(ps, ref.TPiece{Seq: s, Type: ty})
		}
		spec()
		seq(0)
		spec()
		if pair {
			seq(1)
			spec()
		}
		s := ""
		for i, p := range parts {
			if i > 0 {
				s += " "
			}
			s += p
		}
		if r.Intn(2) == 0 {
			return s, ps, s
		}
		return parts, ps, fmt.Sprintf("%q", parts)
	}
	s, sp, sn := mk(false)
	q, qp, qn := mk(true)
	b := processor.DefaultTemplateProcessing().Builder()
	toks := []tokenizer.Token{{Id: 1, Value: "[CLS]"}, {Id: 0, Value: "[SEP]"}, {Id: 7, Value: "<s>"}}
	// in any order
	for _, i := range r.Perm(3) {
		switch i {
		case 0:
			b.NewSingle(s)
		case 1:
			b.NewPair(q)
		case 2:
			b.NewSpecialTokens(toks)
		}
	}
	return gen.Post{Name: "strings(" + sn + " | " + qn + ")", Real: b.Build(), Ref: ref.TemplatePost(sp, qp)}
}

func queries(c *core.C) {
	r := c.R
	var es []*tokenizer.Encoding
	desc := ""
	if r.Intn(2) == 0 {
		p := gen.Make(r, gen.Opts{Trunc: true, Pad: true})
		for k := 0; k < 4; k++ {
			a, b := inputs(r, p, true)
			special := r.Intn(2) == 0
			w, ok, cut := p.Ref.Encode(a, b, special)
			if !ok || !cut || len(w.Over) > 40 {
				continue
			}
			e, err := p.Real.Encode(gen.RealEncodeInput(a, b), special)
			if err != nil {
				continue
			}
			es = append(es, e)
			for i := range e.Overflowing {
				es = append(es, &e.Overflowing[i])
			}
			if p.Post == nil || p.Ref.Post.Tracks {
				// tokens of sequences, and no others, are in a range
				for i := range e.Ids {
					_, ok := e.Token2Sequence(i)
					if len(e.SequenceRanges) > 0 && ok == (e.SpecialTokenMask[i] == 1) {
						c.Fail("special", "token %d %q has a sequence: %v, special mask %d: %s %s", i, e.Tokens[i], ok, e.SpecialTokenMask[i], p, pairStr(a, b))
						return
					}
				}
			}
			desc = fmt.Sprintf("%s %s", p, pairStr(a, b))
		}
	} else {
		for k := 0; k < 6; k++ {
			e := someEnc(r, 0)
			if r.Intn(2) == 0 {
				e = ref.Cat(e, someEnc(r, 1))
			}
			if r.Intn(2) == 0 {
				e = e.Wrap(func(ts []ref.T) []ref.T {
					return append(append([]ref.T{ref.Special(1, "[CLS]", 0)}, ts...), ref.Special(2, "[SEP]", 0))
				})
			}
			re := fromEnc(e, r.Intn(4) > 0)
			if len(re.SequenceRanges) == 0 {
				re.SequenceRanges = nil
			}
			if r.Intn(8) == 0 {
				re.Words = nil
			}
			es = append(es, re)
		}
	}
	if d := madeOf(c); d != "" {
		c.Fail("made", "%s", d)
		return
	}
	for _, e := range es {
		if d := askAll(c, e); d != "" {
			c.Fail("query", "%s\n%s ranges %v\n%s", d, ref.Show(toT(e)), e.SequenceRanges, desc)
			return
		}
		c.Eval(fmt.Sprintf("%s %v", ref.Show(toT(e)), e.SequenceRanges), e.Len() > 1)
	}
}

// madeOf makes an encoding of tokens and changes it.
func madeOf(c *core.C) string {
	r := c.R
	ts := someTs(r, r.Intn(6), 0)
	ty := r.Intn(3)
	var toks []tokenizer.Token
	for i := range ts {
		ts[i].Type, ts[i].Word, ts[i].Seq = ty, -1, 0
		toks = append(toks, tokenizer.NewToken(ts[i].Id, ts[i].Tok, []int{ts[i].S, ts[i].E}))
	}
	e := tokenizer.NewEncodingFromTokens(toks, ty)
	desc := fmt.Sprintf("made of %s with type %d", ref.Show(ts), ty)
	if d := diffTs(toT(e), ts, false, false); d != "" {
		return d + ": " + desc
	}
	if d := askAll(c, e); d != "" {
		return d + ": " + desc
	}
	o := fromEnc(someEnc(r, 1), true)
	e.SetOverflowing(append([]tokenizer.Encoding{*o}, o.Overflowing...))
	n := len(e.Overflowing)
	if got := e.TakeOverflowing(); len(got) != n || !sameEnc(&got[0], deepEnc(o)) || len(e.GetOverflowing()) != 0 {
		return fmt.Sprintf("taking %d overflowing parts gives %d and leaves %d: %s", n, len(got), len(e.GetOverflowing()), desc)
	}
	e.Words = make([]int, len(ts))
	for i := range ts {
		w := r.Intn(4) - 1
		e.SetWord(i, w)
		ts[i].Word = w
		ts[i].Type = r.Intn(4)
	}
	var tys []int
	for _, t := range ts {
		tys = append(tys, t.Type)
	}
	e.SetTypeIds(tys)
	q := r.Intn(3)
	e.SetSequenceIds(q)
	for i := range ts {
		ts[i].Seq = q
	}
	if d := diffTs(toT(e), ts, false, false); d != "" {
		return "after the setters " + d + ": " + desc
	}
	if d := askAll(c, e); d != "" {
		return "after the setters " + d + ": " + desc
	}
	c.Note("encodings made of tokens")
	return ""
}

func askAll(c *core.C, e *tokenizer.Encoding) string {
	n := len(e.Ids)
	asked := 0
	defer func() { c.NoteN("queries asked", asked) }()
	for i := -2; i < n+3; i++ {
		in := i >= 0 && i < n
		ch, ok := e.Token2Chars(i)
		asked += 3
		if ok != in || in && !eqInts(ch, e.Offsets[i]) {
			return fmt.Sprintf("Token2Chars(%d) = %v %v", i, ch, ok)
		}
		w, ok := e.Token2Word(i)
		want := in && i < len(e.Words) && e.Words[i] >= 0
		if ok != want || ok && w != e.Words[i] {
			return fmt.Sprintf("Token2Word(%d) = %v %v", i, w, ok)
		}
		s, ok := e.Token2Sequence(i)
		ws := -1
		for q, rg := range e.SequenceRanges {
			for _, x := range rg {
				if x == i {
					ws = q
				}
			}
		}
		if len(e.SequenceRanges) == 0 && in {
			ws = 0
		}
		if ok != (ws >= 0) || ok && s != ws {
			return fmt.Sprintf("Token2Sequence(%d) = %v %v want %d", i, s, ok, ws)
		}
	}
	maxW, maxC := 0, 0
	for _, w := range e.Words {
		maxW = max(maxW, w)
	}
	for _, o := range e.Offsets {
		maxC = max(maxC, o[1])
	}
	for w := -2; w < maxW+3; w++ {
		asked += 2
		st, en := -1, -1
		for i, x := range e.Words {
			if x == w && w >= 0 && st < 0 {
				st = i
				for en = i; en < len(e.Words) && e.Words[en] == w; en++ {
				}
			}
		}
		a, b, ok := e.Word2Tokens(w)
		if ok != (st >= 0) || ok && (a != st || b != en) {
			return fmt.Sprintf("Word2Tokens(%d) = %d %d %v want %d %d", w, a, b, ok, st, en)
		}
		ch, ok := e.Word2Chars(w)
		if ok != (st >= 0) || ok && !eqInts(ch, []int{e.Offsets[st][0], e.Offsets[en-1][1]}) {
			return fmt.Sprintf("Word2Chars(%d) = %v %v", w, ch, ok)
		}
	}
	for p := -2; p < maxC+3; p++ {
		asked += 2
		want := -1
		for i, o := range e.Offsets {
			if o[0] <= p && p < o[1] {
				want = i
				break
			}
		}
		t, ok := e.Char2Token(p)
		if ok != (want >= 0) || ok && t != want {
			return fmt.Sprintf("Char2Token(%d) = %d %v want %d", p, t, ok, want)
		}
		w, ok := e.Char2Word(p)
		wok := want >= 0 && want < len(e.Words) && e.Words[want] >= 0
		if ok != wok || ok && w != e.Words[want] {
			return fmt.Sprintf("Char2Word(%d) = %d %v", p, w, ok)
		}
	}
	for s := -1; s < 4; s++ {
		asked++
		rg, err := e.SequenceRange(s)
		want, ok := e.SequenceRanges[s]
		if ok != (err == nil) || ok && !eqInts(rg, want) {
			return fmt.Sprintf("SequenceRange(%d) = %v %v", s, rg, err)
		}
		for i := 1; i < len(rg); i++ {
			if rg[i] != rg[i-1]+1 {
				return fmt.Sprintf("SequenceRange(%d) = %v has a gap", s, rg)
			}
		}
		if len(rg) > 0 && (rg[0] < 0 || rg[len(rg)-1] >= n) {
			return fmt.Sprintf("SequenceRange(%d) = %v of %d tokens", s, rg, n)
		}
	}
	ids := e.GetSequenceIds()
	if len(ids) != n {
		return fmt.Sprintf("GetSequenceIds gives %d of %d tokens", len(ids), n)
	}
	for q, rg := range e.SequenceRanges {
		for _, i := range rg {
			if ids[i] != q {
				return fmt.Sprintf("GetSequenceIds %v, token %d is of sequence %d", ids, i, q)
			}
		}
	}
	if e.NSequences() != max(1, len(e.SequenceRanges)) {
		return fmt.Sprintf("NSequences %d", e.NSequences())
	}
	if !eqInts(e.GetIds(), e.Ids) || !eqInts(e.GetTypeIds(), e.TypeIds) || !eqInts(e.GetWords(), e.Words) || !eqInts(e.GetSpecialTokenMask(), e.SpecialTokenMask) ||
		!eqInts(e.GetAttentionMask(), e.AttentionMask) || !reflect.DeepEqual(e.GetTokens(), e.Tokens) || !reflect.DeepEqual(e.GetOffsets(), e.Offsets) ||
		len(e.GetOverflowing()) != len(e.Overflowing) || e.Len() != n || e.IsEmpty() != (n == 0) {
		return "a getter does not give its field"
	}
	return ""
}

// growCat is Cat with the offsets of the second part behind those of the first.
func growCat(a, b ref.Enc) ref.Enc {
	j := func(x, y []ref.T) []ref.T {
		out := append([]ref.T{}, x...)
		at := 0
		if len(x) > 0 {
			at = x[len(x)-1].E
		}
		for _, t := range y {
			t.S, t.E = t.S+at, t.E+at
			out = append(out, t)
		}
		return out
	}
	out := ref.Enc{T: j(a.T, b.T)}
	for _, o := range a.Over {
		out.Over = append(out.Over, j(o, b.T))
		for _, p := range b.Over {
			out.Over = append(out.Over, j(o, p))
		}
	}
	for _, p := range b.Over {
		out.Over = append(out.Over, j(a.T, p))
	}
	return out
}

func merging(c *core.C) {
	r := c.R
	for k := 0; k < 8 && !c.Failed(); k++ {
		n := gen.Pick(r, 2, 2, 2, 3, 3, 4)
		if r.Intn(40) == 0 {
			n = 15 + r.Intn(60)
			c.Note("merges of over 15 encodings")
		}
		grow := r.Intn(2) == 0
		var es []ref.Enc
		var real []*tokenizer.Encoding
		var snaps []*tokenizer.Encoding
		desc := fmt.Sprintf("merge grow=%v", grow)
		for i := 0; i < n; i++ {
			e := someEnc(r, i)
			for len(e.Over) > 3 {
				e.Over = e.Over[:3]
			}
			if n > 4 {
				e.Over = nil // their number multiplies
				if len(e.T) > 30 {
					e.T = e.T[:30]
				}
			}
			if r.Intn(4) == 0 {
				// special tokens, of no sequence
				e = ref.Enc{T: []ref.T{ref.Special(r.Intn(9), "[SEP]", i)}}
			} else if r.Intn(3) == 0 {
				// a sequence between special tokens
				front, back := r.Intn(3), r.Intn(3)
				wrap := func(ts []ref.T) (out []ref.T) {
					for k := 0; k < front; k++ {
						out = append(out, ref.Special(k, "[CLS]", i))
					}
					out = append(out, ts...)
					for k := 0; k < back; k++ {
						out = append(out, ref.Special(k+5, "[SEP]", i))
					}
					return
				}
				e.T = wrap(e.T)
				for k := range e.Over {
					e.Over[k] = wrap(e.Over[k])
				}
			}
			es = append(es, e)
			re := fromEnc(e, true)
			real = append(real, re)
			snaps = append(snaps, deepEnc(re))
			desc += " {" + encDesc(e) + "}"
		}
		want := es[0]
		nt := len(es[0].T) > 0 && len(es[1].T) > 0
		for _, e := range es[1:] {
			if grow {
				want = growCat(want, e)
			} else {
				want = ref.Cat(want, e)
			}
		}
		c.Eval(desc, nt)
		var got *tokenizer.Encoding
		from := 1
		switch r.Intn(3) {
		case 0:
			got = real[0]
			for _, e := range real[1:] {
				got = got.MergeWith(e, grow)
			}
		case 1:
			var rest []tokenizer.Encoding
			for _, e := range real[1:] {
				rest = append(rest, *e)
			}
			got = real[0].Merge(rest, grow)
		case 2:
			var all []tokenizer.Encoding
			for _, e := range real {
				all = append(all, *e)
			}
			got = tokenizer.MergeEncodings(all, grow)
			from = 0
		}
		if d := diffEnc(got, want, nil); d != "" {
			c.Fail("merge", "%s\n%s", d, desc)
			return
		}
		for i := from; i < n; i++ {
			if !sameEnc(real[i], snaps[i]) {
				c.Fail("changed", "encoding %d that was merged in is now %s: %s", i, ref.Show(toT(real[i])), desc)
				return
			}
		}
		c.Note("merges")
		c.NoteN("overflowing parts merged", len(want.Over))
		// what was merged in does not change when the merged one does
		for i := range got.Ids {
			got.Ids[i], got.TypeIds[i], got.Tokens[i] = -9, -9, "!"
		}
		got.Pad(got.Len()+3, 7, 7, "pad", tokenizer.Right)
		for i := 1; i < n; i++ {
			if !sameEnc(real[i], snaps[i]) {
				c.Fail("shared", "encoding %d changes with the merged one: %s", i, desc)
				return
			}
		}
	}
}
