package props

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/decoder"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
	"github.com/sugarme/tokenizer/processor"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "P15", Quick: 4000, Thorough: 200000,
		Rule: "each case does one of: (a) run random decoders (also in nested sequences) over random token lists and compare chain and text with the definitions, and the list with a snapshot; (b) decode random ids with a whole random tokenizer, with unknown ids and special tokens, and compare; (c) encode a text with a lossless pipeline (byte-level BPE; metaspace with BPE or unigram; byte fallback; words with an end-of-word suffix or WordPiece) and check that decoding gives the text; non-trivial: a token changed by the decoder, or at least two tokens",
		Run: func(c *core.C) {
			switch c.R.Intn(4) {
			case 0, 1:
				decodeTokens(c)
			case 2:
				decodeIds(c)
			default:
				roundTrip(c)
			}
		}})
}

func sameStrings(a, b []string) bool {
	return len(a) == len(b) && strings.Join(a, "\x00,") == strings.Join(b, "\x00,")
}

func decodeTokens(c *core.C) {
	r := c.R
	d := gen.Decoder(r, false)
	for k := 0; k < 6; k++ {
		toks := gen.DecTokens(r)
		if r.Intn(25) == 0 {
			toks = nil
		}
		if r.Intn(200) == 0 {
			for len(toks) > 0 && len(toks) < 2000 {
				toks = append(toks, gen.DecTokens(r)...)
			}
		}
		desc := fmt.Sprintf("%s on %+q", d.Name, toks)
		c.Detail("%s", desc)
		// given with spare room behind it
		given := append(make([]string, 0, len(toks)+5), toks...)
		want := d.Ref(append([]string{}, toks...))
		c.Eval(desc, strings.Join(want, "") != strings.Join(toks, ""))
		var got []string
		var text string
		if !c.Guard("panic", desc, func() { got = d.Real.DecodeChain(given) }) || !c.Guard("panic", desc, func() { text = d.Real.Decode(given) }) {
			return
		}
		if !sameStrings(got, want) {
			c.Fail("chain", "%s gives %+q, not %+q", desc, got, want)
			return
		}
		if text != strings.Join(want, "") {
			c.Fail("text", "%s gives %+q, not %+q", desc, text, strings.Join(want, ""))
			return
		}
		if !sameStrings(given, toks) {
			c.Fail("input", "%s changed its input to %+q", desc, given)
			return
		}
		if !sameStrings(d.Real.DecodeChain(given), want) {
			c.Fail("again", "%s differs the second time", desc)
			return
		}
		c.NoteN("tokens decoded", len(toks))
	}
}

func decodeIds(c *core.C) {
	r := c.R
	p := gen.Make(r, gen.Opts{Dec: true})
	all := map[string]int{}
	for t, id := range p.Model.Vocab {
		all[t] = id
	}
	for t, id := range p.Ref.Added.Map {
		all[t] = id
	}
	var known []int
	for _, id := range all {
		known = append(known, id)
	}
	sort.Ints(known)
	var batch [][]int
	for k := 0; k < 4; k++ {
		var ids []int
		if in := gen.InputFor(r, p); r.Intn(2) == 0 && validInput(p, in) {
			if e, err := p.Real.Encode(gen.RealEncodeInput(in, nil), r.Intn(2) == 0); err == nil {
				ids = append(ids, e.Ids...)
			}
		}
		for i := r.Intn(8); i > 0; i-- {
			switch r.Intn(5) {
			case 0:
				ids = append(ids, gen.Pick(r, -1, -5, len(all), len(all)+1, 1<<40, -1<<40))
			default:
				ids = append(ids, gen.Pick(r, known...))
			}
		}
		if r.Intn(300) == 0 {
			for len(ids) > 0 && len(ids) < 2000 {
				ids = append(ids, ids...)
			}
		}
		batch = append(batch, ids)
	}
	for _, skip := range []bool{false, true} {
		var wants []string
		for _, ids := range batch {
			desc := fmt.Sprintf("%s\ndecode %v skip=%v", p, ids, skip)
			c.Detail("%s", desc)
			c.Eval(desc, len(ids) > 1)
			given := append([]int{}, ids...)
			got := p.Real.Decode(given, skip)
			want := p.Ref.Decode(ids, skip)
			if got != want {
				c.Fail("ids", "%s gives %+q, not %+q", desc, got, want)
				return
			}
			if !eqInts(given, ids) {
				c.Fail("input", "%s changed its input", desc)
				return
			}
			wants = append(wants, want)
			c.NoteN("ids decoded", len(ids))
		}
		batch := batch
		if r.Intn(2) == 0 {
			// a batch of any size
			var b [][]int
			var w []string
			for n := gen.Pick(r, 0, 1, 2, 7, 9, 17, r.Intn(80)); n > 0; n-- {
				i := r.Intn(len(batch))
				b, w = append(b, batch[i]), append(w, wants[i])
			}
			batch, wants = b, w
		}
		c.NoteN("batches decoded, by size", len(batch))
		got := p.Real.DecodeBatch(batch, skip)
		if !sameStrings(got, wants) {
			c.Fail("batch", "%s: batch %v skip=%v gives %+q, not %+q", p, batch, skip, got, wants)
			return
		}
	}
}

// roundTrip encodes and decodes with pipelines that keep everything.
func roundTrip(c *core.C) {
	r := c.R
	kind := gen.Pick(r, "byte-level", "byte-level", "metaspace", "metaspace", "byte-fallback", "byte-fallback", "suffix", "wordpiece")
	var texts []string
	for i := 0; i < 5; i++ {
		texts = append(texts, roundText(r, kind))
	}
	var (
		tk     *tokenizer.Tokenizer
		expect = func(s string) string { return s }
		m      gen.Model
		name   string
	)
	switch kind {
	case "byte-level":
		prefix := r.Intn(2) == 0
		bl := &pretokenizer.ByteLevel{AddPrefixSpace: prefix, TrimOffsets: r.Intn(2) == 0}
		var pieces []string
		for _, t := range texts {
			var b strings.Builder
			for i := 0; i < len(t); i++ {
				b.WriteRune(ref.ByteChar[t[i]])
			}
			pieces = append(pieces, b.String())
		}
		m = gen.MakeBPE(r, pieces, gen.BPEOpts{ByteLevel: true, Merges: 60, Extra: []string{"<s>", "</s>"}})
		tk = tokenizer.NewTokenizer(m.Real)
		tk.WithPreTokenizer(bl)
		tk.WithDecoder(bl)
		name = fmt.Sprintf("prefix=%v", prefix)
		if prefix {
			expect = func(s string) string {
				if s != "" && !strings.HasPrefix(s, " ") {
					return " " + s
				}
				return s
			}
		}
		if r.Intn(2) == 0 {
			name += " with special tokens"
			tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("<s>", true), tokenizer.NewAddedToken("</s>", true)})
			s, _ := tk.TokenToId("<s>")
			e, _ := tk.TokenToId("</s>")
			tk.WithPostProcessor(processor.NewBertProcessing(processor.PostToken{Value: "</s>", Id: e}, processor.PostToken{Value: "<s>", Id: s}))
		}
	case "metaspace":
		scheme := gen.Pick(r, pretokenizer.Never, pretokenizer.First, pretokenizer.Always)
		ms := pretokenizer.NewMetaspaceWithScheme("▁", scheme)
		m = fullModel(r, texts, "▁", false)
		tk = tokenizer.NewTokenizer(m.Real)
		tk.WithPreTokenizer(ms)
		tk.WithDecoder(ms)
		name = fmt.Sprintf("scheme %d %s", scheme, m.Name)
	case "byte-fallback":
		m = fullModel(r, texts, "▁", true)
		tk = tokenizer.NewTokenizer(m.Real)
		tk.WithNormalizer(normalizer.NewReplace(normalizer.String, " ", "▁"))
		tk.WithDecoder(decoder.NewSequence([]tokenizer.Decoder{normalizer.NewReplace(normalizer.String, "▁", " "), decoder.NewByteFallback(), decoder.NewFuse()}))
		name = m.Name
	case "suffix":
		// the alphabet, with and without the suffix
		set := map[string]bool{}
		for _, t := range append(texts, "a") {
			for _, x := range t {
				set[string(x)], set[string(x)+"</w>"] = true, true
			}
		}
		b := suffixed(r, set, texts)
		real, err := gen.RealBPE(b, -1, 0)
		if err != nil {
			c.Fail("build", "%v", err)
			return
		}
		tk = tokenizer.NewTokenizer(real)
		tk.WithPreTokenizer(pretokenizer.NewWhitespaceSplit())
		tk.WithDecoder(decoder.NewBpeDecoder("</w>"))
		name = fmt.Sprintf("%d merges", len(b.Merges))
	case "wordpiece":
		vocab := map[string]int{"[UNK]": 0}
		put := func(s string) {
			if _, ok := vocab[s]; !ok {
				vocab[s] = len(vocab)
			}
		}
		for _, t := range texts {
			for _, w := range strings.Fields(t) {
				rs := []rune(w)
				for i := range rs {
					put(string(rs[i]))
					put("##" + string(rs[i]))
					j := min(len(rs), i+1+r.Intn(4))
					if r.Intn(3) == 0 {
						put(string(rs[i:j]))
						put("##" + string(rs[i:j]))
					}
				}
			}
		}
		m := gen.WordPieceFor(vocab, "[UNK]", "##", 400)
		tk = tokenizer.NewTokenizer(m.Real)
		tk.WithPreTokenizer(pretokenizer.NewWhitespaceSplit())
		tk.WithDecoder(decoder.NewWordPieceDecoder("##", false))
		name = fmt.Sprintf("%d entries", len(vocab))
	}
	asked := append([]string{}, texts...)
	for i := 0; i < 3; i++ {
		a, b := []rune(gen.Pick(r, texts...)), gen.Pick(r, texts...)
		t := string(a[:r.Intn(len(a)+1)]) + b
		if kind == "suffix" || kind == "wordpiece" {
			t = strings.Join(strings.Fields(t), " ")
		}
		asked = append(asked, t)
	}
	if r.Intn(60) == 0 {
		t := gen.Pick(r, asked...)
		for t != "" && len(t) < 3000 {
			t += gen.Pick(r, asked...)
		}
		if kind == "suffix" || kind == "wordpiece" {
			t = strings.Join(strings.Fields(t), " ")
		}
		asked = append(asked, t)
	}
	for _, t := range asked {
		if kind == "metaspace" {
			t = strings.TrimLeft(t, " ")
		}
		if kind == "byte-level" && (strings.Contains(t, "<s>") || strings.Contains(t, "</s>")) {
			continue
		}
		desc := fmt.Sprintf("%s %s on %+q", kind, name, t)
		c.Detail("%s", desc)
		e, err := tk.EncodeSingle(t, true)
		if err != nil {
			c.Fail("encode", "%s: %v", desc, err)
			return
		}
		got := tk.Decode(e.Ids, true)
		c.Eval(desc, len(e.Ids) > 1)
		c.Note("round trips " + kind)
		if want := expect(t); got != want {
			c.Fail("round-trip-"+kind, "%s: tokens %+q decode to %+q, not %+q", desc, e.Tokens, got, want)
			return
		}
	}
}

func roundText(r *rand.Rand, kind string) string {
	for {
		t := gen.Any(r)
		if r.Intn(10) == 0 {
			t = gen.RandRunes(r, 1+r.Intn(20))
		}
		switch kind {
		case "byte-level":
			if strings.Contains(t, "<s>") || strings.Contains(t, "</s>") {
				continue
			}
		case "metaspace", "byte-fallback":
			// only plain spaces stay what they are
			t = strings.Map(func(c rune) rune {
				if c != ' ' && strings.ContainsRune("\t\n\f\r\v", c) {
					return 'x'
				}
				return c
			}, t)
			if strings.Contains(t, "▁") || strings.Contains(t, "<0x") || strings.Contains(t, "<unk>") || len(t) > 400 {
				continue
			}
		case "suffix", "wordpiece":
			ws := strings.Fields(t)
			for i, w := range ws {
				if rs := []rune(w); len(rs) > 40 {
					ws[i] = string(rs[:40])
				}
			}
			t = strings.Join(ws, " ")
			if strings.Contains(t, "##") || strings.Contains(t, "</w>") || strings.Contains(t, "[UNK]") {
				continue
			}
		}
		return t
	}
}

// fullModel is a model that knows every character of texts (and the replacement of spaces),
// or has a token for every byte.
func fullModel(r *rand.Rand, texts []string, space string, bytes bool) gen.Model {
	var pieces []string
	for _, t := range texts {
		t = strings.ReplaceAll(t, " ", space)
		pieces = append(pieces, t, space+t)
	}
	if !bytes && r.Intn(2) == 0 {
		return gen.MakeBPE(r, pieces, gen.BPEOpts{Merges: 50, Extra: []string{space}})
	}
	u := gen.Uni(r, pieces, nil)
	u.Bytes = bytes
	seen := map[string]bool{}
	for _, t := range u.Toks {
		seen[t] = true
	}
	add := func(t string) {
		if !seen[t] {
			seen[t] = true
			u.Toks = append(u.Toks, t)
			u.Scores = append(u.Scores, -1-10*r.Float64())
		}
	}
	if bytes {
		for b := 0; b < 256; b++ {
			add(ref.ByteTok(byte(b)))
		}
	} else {
		for _, p := range pieces {
			for _, x := range p {
				add(string(x))
			}
		}
		add(space)
	}
	return gen.UniModel(u)
}

// suffixed learns merges over words with an end-of-word suffix.
func suffixed(r *rand.Rand, set map[string]bool, texts []string) *ref.BPE {
	b := &ref.BPE{Vocab: map[string]int{}, Suffix: "</w>"}
	var ks []string
	for k := range set {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		b.Vocab[k] = i
	}
	words := strings.Fields(strings.Join(texts, " ") + " a")
	seen := map[[2]string]bool{}
	for i := 0; i < 40; i++ {
		toks, ok := b.New()(gen.Pick(r, words...))
		if !ok || len(toks) < 2 {
			continue
		}
		j := r.Intn(len(toks) - 1)
		m := [2]string{toks[j].Value, toks[j+1].Value}
		if seen[m] {
			continue
		}
		seen[m] = true
		b.Merges = append(b.Merges, m)
		if _, ok := b.Vocab[m[0]+m[1]]; !ok {
			b.Vocab[m[0]+m[1]] = len(b.Vocab)
		}
	}
	return b
}
