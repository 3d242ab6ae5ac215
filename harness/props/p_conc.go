package props

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	randv2 "math/rand/v2"
	"reflect"
	"runtime"
	"sort"
	"sync"
	"time"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"

	"verif/harness/core"
	"verif/harness/gen"
)

func init() {
	core.Register(&core.Prop{ID: "P16", Race: true, Quick: 260, Thorough: 12000,
		Rule: "each case makes two random tokenizers and twins of them; the twins give the results one call at a time, then many goroutines run encodings, decodings, batches and lookups on the two shared tokenizers at once, under the race detector, with delays injected into normalizer, pre-tokenizer and model in half of the cases; every result is compared with the serial one; distinct interleavings are told apart by the order of starts and ends of all calls; non-trivial: calls overlapped",
		Run:  concurrent})
}

// jitter lets other goroutines in, without synchronizing with them.
func jitter() {
	switch randv2.IntN(6) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(randv2.IntN(60)) * time.Microsecond)
	}
}

type slowModel struct{ tokenizer.Model }

func (m slowModel) Tokenize(s string) ([]tokenizer.Token, error) {
	jitter()
	defer jitter()
	return m.Model.Tokenize(s)
}

type slowNorm struct{ normalizer.Normalizer }

func (n slowNorm) Normalize(s *normalizer.NormalizedString) (*normalizer.NormalizedString, error) {
	jitter()
	return n.Normalizer.Normalize(s)
}

type slowPT struct{ tokenizer.PreTokenizer }

func (n slowPT) PreTokenize(s *tokenizer.PreTokenizedString) (*tokenizer.PreTokenizedString, error) {
	jitter()
	defer jitter()
	return n.PreTokenizer.PreTokenize(s)
}

// call is one thing done with a tokenizer, and what came of it.
type call struct {
	what string
	run  func(tk *tokenizer.Tokenizer) any
	want any
	got  any
	t0   time.Time
	t1   time.Time
}

type result struct {
	E   any
	Err bool
}

func concurrent(c *core.C) {
	r := c.R
	if r.Intn(40) == 0 {
		bigBatches(c)
		return
	}
	type side struct {
		p, twin *gen.Pipe
		calls   []*call
	}
	var sides []*side
	slow := r.Intn(2) == 0
	desc := fmt.Sprintf("delays=%v", slow)
	for k := 0; k < 2; k++ {
		seed := r.Int63()
		o := gen.Opts{Trunc: r.Intn(3) == 0, Pad: r.Intn(3) == 0, Dec: true, Model: gen.Pick(r, "", "", "bpe", "unigram", "wordpiece")}
		s := &side{p: gen.Make(rand.New(rand.NewSource(seed)), o), twin: gen.Make(rand.New(rand.NewSource(seed)), o)}
		desc += "\n" + s.p.String()
		if slow {
			tk := s.p.Real
			tk.WithModel(slowModel{tk.GetModel()})
			if n := tk.GetNormalizer(); n != nil {
				tk.WithNormalizer(slowNorm{n})
			}
			if n := tk.GetPreTokenizer(); n != nil {
				tk.WithPreTokenizer(slowPT{n})
			}
		}
		sides = append(sides, s)
		// inputs come again, so that what one call stores the others find
		type item struct {
			in      tokenizer.EncodeInput
			special bool
			ok      bool
			text    string
		}
		var items []item
		var texts []string
		s.p.Short = r.Intn(20) > 0
		for len(items) < 14 {
			a, b := inputs(r, s.p, true)
			sp := r.Intn(2) == 0
			want, ok, cut := s.p.Ref.Encode(a, b, sp)
			if !cut || len(want.Over) > 60 {
				if r.Intn(30) == 0 {
					return
				}
				continue
			}
			items = append(items, item{gen.RealEncodeInput(a, b), sp, ok, pairStr(a, b)})
			if b == nil && !a.IsPre {
				texts = append(texts, a.Text)
			}
		}
		good := []item{}
		for _, it := range items {
			if it.ok {
				good = append(good, it)
			}
		}
		var ids []int
		for id := -1; id < len(s.p.Model.Vocab)+4; id++ {
			ids = append(ids, id)
		}
		someIds := func() []int {
			var out []int
			for i := r.Intn(10); i >= 0; i-- {
				out = append(out, gen.Pick(r, ids...))
			}
			return out
		}
		for n := 36; n > 0; n-- {
			cl := &call{}
			switch k := r.Intn(10); k {
			case 0, 1, 2, 3:
				it := gen.Pick(r, items...)
				cl.what = "encode " + it.text
				cl.run = func(tk *tokenizer.Tokenizer) any {
					e, err := tk.Encode(it.in, it.special)
					return result{e, err != nil}
				}
			case 4:
				it := gen.Pick(r, items...)
				cl.what = "encode with character offsets " + it.text
				cl.run = func(tk *tokenizer.Tokenizer) any {
					e, err := tk.EncodeCharOffsets(it.in, it.special)
					return result{e, err != nil}
				}
			case 5, 6:
				its := []item{gen.Pick(r, items...)}
				sp := its[0].special // a truncation may be impossible the other way
				for i := gen.Pick(r, r.Intn(12), r.Intn(12), r.Intn(12), r.Intn(12), r.Intn(12), r.Intn(12), r.Intn(12), 26+r.Intn(30)); i >= 0; i-- {
					it := gen.Pick(r, items...)
					if len(good) > 0 && r.Intn(20) > 0 {
						it = gen.Pick(r, good...)
					}
					if it.special == sp {
						its = append(its, it)
					}
				}
				var ins []tokenizer.EncodeInput
				cl.what = fmt.Sprintf("batch special=%v", sp)
				for _, it := range its {
					ins = append(ins, it.in)
					cl.what += " " + it.text
				}
				cl.run = func(tk *tokenizer.Tokenizer) any {
					if tk == s.twin.Real {
						// one by one
						var es []tokenizer.Encoding
						for _, in := range ins {
							e, err := tk.Encode(in, sp)
							if err != nil {
								return result{[]tokenizer.Encoding(nil), true}
							}
							es = append(es, *deepEnc(e))
						}
						if p := s.twin.Ref.Pad; p != nil {
							es = tokenizer.PadEncodings(es, *gen.RealPad(p))
						}
						return result{es, false}
					}
					es, err := tk.EncodeBatch(ins, sp)
					return result{es, err != nil}
				}
			case 7:
				a, skip := someIds(), r.Intn(2) == 0
				cl.what = fmt.Sprintf("decode %v %v", a, skip)
				cl.run = func(tk *tokenizer.Tokenizer) any { return tk.Decode(a, skip) }
			case 8:
				var b [][]int
				for i := gen.Pick(r, r.Intn(6), r.Intn(6), 16+r.Intn(16)); i >= 0; i-- {
					b = append(b, someIds())
				}
				skip := r.Intn(2) == 0
				cl.what = fmt.Sprintf("decode batch %v %v", b, skip)
				cl.run = func(tk *tokenizer.Tokenizer) any {
					if tk == s.twin.Real {
						out := []string{}
						for _, x := range b {
							out = append(out, tk.Decode(x, skip))
						}
						return out
					}
					return tk.DecodeBatch(b, skip)
				}
			default:
				id := gen.Pick(r, ids...)
				t := "[SEP]"
				if len(texts) > 0 {
					t = gen.Pick(r, texts...)
				}
				cl.what = fmt.Sprintf("look up %d", id)
				cl.run = func(tk *tokenizer.Tokenizer) any {
					a, ok := tk.IdToToken(id)
					b, ok2 := tk.TokenToId(a)
					d, ok3 := tk.TokenToId(t)
					return []any{a, ok, b, ok2, d, ok3, len(tk.GetVocab(true)), tk.GetVocabSize(true), len(tk.GetSpecialTokens())}
				}
			}
			s.calls = append(s.calls, cl)
		}
	}
	c.Detail("%s", desc)
	// one at a time
	for _, s := range sides {
		for _, cl := range s.calls {
			cl.want = cl.run(s.twin.Real)
		}
	}
	// all at once
	g := gen.Pick(r, 4, 8, 16, 40)
	lanes := make([][]func(), g)
	for i := 0; i < len(sides[0].calls); i++ {
		for _, s := range sides {
			cl, tk := s.calls[i], s.p.Real
			l := r.Intn(g)
			lanes[l] = append(lanes[l], func() {
				cl.t0 = time.Now()
				cl.got = cl.run(tk)
				cl.t1 = time.Now()
			})
		}
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for _, l := range lanes {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, f := range l {
				f()
			}
		}()
	}
	close(start)
	wg.Wait()
	// what overlapped?
	type ev struct {
		t   time.Time
		id  int
		end bool
	}
	var evs []ev
	for k, s := range sides {
		for i, cl := range s.calls {
			evs = append(evs, ev{cl.t0, k*1000 + i, false}, ev{cl.t1, k*1000 + i, true})
		}
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].t.Before(evs[j].t) })
	h := fnv.New64a()
	open, most := 0, 0
	for _, e := range evs {
		fmt.Fprint(h, e.id, e.end)
		if e.end {
			open--
		} else {
			open++
			most = max(most, open)
		}
	}
	c.Eval(fmt.Sprintf("%s\n%d goroutines, order of starts and ends %x", desc, g, h.Sum64()), most > 1)
	c.NoteN("calls", len(evs)/2)
	c.Note(fmt.Sprintf("calls open at a time: %s", bucket(most)))
	for _, s := range sides {
		for _, cl := range s.calls {
			if !reflect.DeepEqual(view(cl.got), view(cl.want)) {
				c.Fail("differs", "%s\n%s gives\n%s, alone\n%s", s.p, cl.what, show(cl.got), show(cl.want))
				return
			}
		}
	}
}

// bigBatches runs batches of thousands.
func bigBatches(c *core.C) {
	r := c.R
	p := gen.Make(r, gen.Opts{Dec: true})
	p.Short = true
	n := 600 + r.Intn(1500)
	var ins []tokenizer.EncodeInput
	var want []any
	var ids [][]int
	var texts []string
	special := r.Intn(2) == 0
	for k := 0; len(ins) < 12; k++ {
		if k > 200 {
			return
		}
		a, b := inputs(r, p, true)
		in := gen.RealEncodeInput(a, b)
		if len(a.Text) > 100 || len(a.Words) > 10 || b != nil && (len(b.Text) > 100 || len(b.Words) > 10) {
			continue
		}
		e, err := p.Real.Encode(in, special)
		if err != nil {
			continue
		}
		ins, want, ids = append(ins, in), append(want, fields(e)), append(ids, e.Ids)
		texts = append(texts, p.Real.Decode(e.Ids, false))
	}
	at := make([]int, n)
	many, lists := make([]tokenizer.EncodeInput, n), make([][]int, n)
	for i := range at {
		at[i] = r.Intn(len(ins))
		many[i], lists[i] = ins[at[i]], ids[at[i]]
	}
	desc := fmt.Sprintf("%s batch of %d", p, n)
	c.Detail("%s", desc)
	c.Eval(desc, true)
	c.NoteN("inputs in batches of more than 600", n)
	es, err := p.Real.EncodeBatch(many, special)
	if err != nil || len(es) != n {
		c.Fail("batch", "%d results, %v: %s", len(es), err, desc)
		return
	}
	for i := range es {
		if g := fields(&es[i]); !reflect.DeepEqual(g, want[at[i]]) {
			c.Fail("differs", "result %d is %.600s, alone %.600s: %s", i, fmt.Sprint(g), fmt.Sprint(want[at[i]]), desc)
			return
		}
	}
	out := p.Real.DecodeBatch(lists, false)
	if len(out) != n {
		c.Fail("batch", "%d texts: %s", len(out), desc)
		return
	}
	for i := range out {
		if out[i] != texts[at[i]] {
			c.Fail("differs", "text %d is %+q, alone %+q: %s", i, out[i], texts[at[i]], desc)
			return
		}
	}
}

func bucket(n int) string {
	for _, b := range []int{1, 2, 4, 8, 16, 32} {
		if n <= b {
			return fmt.Sprintf("up to %d", b)
		}
	}
	return "more than 32"
}

// view is a result without what makes no difference (nil or empty).
func view(x any) any {
	res, ok := x.(result)
	if !ok {
		return x
	}
	if res.Err {
		return "error"
	}
	switch e := res.E.(type) {
	case *tokenizer.Encoding:
		return fields(e)
	case []tokenizer.Encoding:
		out := []any{}
		for i := range e {
			out = append(out, fields(&e[i]))
		}
		return out
	}
	return x
}

func fields(e *tokenizer.Encoding) any {
	d := deepEnc(e)
	out := []any{fmt.Sprint(d.Ids, d.TypeIds, d.Offsets, d.Words, d.SpecialTokenMask, d.AttentionMask, d.SequenceRanges), fmt.Sprintf("%+q", d.Tokens)}
	for i := range d.Overflowing {
		out = append(out, fields(&d.Overflowing[i]))
	}
	return out
}

func show(x any) string { s := fmt.Sprintf("%+v", view(x)); return s[:min(len(s), 1500)] }
