package props

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"unicode/utf8"

	"golang.org/x/text/unicode/norm"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/bpe"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "P11", Quick: 1600, Thorough: 60000,
		Rule: "each case makes a random BPE model and tokenizes many words with no cache, with caches of several sizes and again with warm caches, and with dropout; the tokens are compared with a naive merge loop (with dropout: with what merges can derive); non-trivial: at least one merge applied",
		Run:  also(waysToo(bpeModel, 10, 2), 8, gen.Opts{Model: "bpe", NoPost: true})})
	core.Register(&core.Prop{ID: "P12", Quick: 2500, Thorough: 100000,
		Rule: "each case makes a random WordPiece vocabulary and tokenizes many words; compared with greedy longest match from the left; non-trivial: several pieces",
		Run: also(waysToo(func(c *core.C) {
			simpleModel(c, func(ps []string) gen.Model { return gen.MakeWordPiece(c.R, ps, nil) })
		}, 10, 1), 8, gen.Opts{Model: "wordpiece", NoPost: true})})
	core.Register(&core.Prop{ID: "P13", Quick: 2500, Thorough: 100000,
		Rule: "each case makes a random unigram model and tokenizes many words; each segmentation is checked to be made of entries (or due unknowns), to cover the word, and to score no less than the best of all segmentations found by an independent dynamic program, for short words by enumeration; non-trivial: several pieces",
		Run:  also(waysToo(uniModel, 10, 3), 8, gen.Opts{Model: "unigram", NoPost: true})})
	core.Register(&core.Prop{ID: "P14", Quick: 2000, Thorough: 80000,
		Rule: "each case makes a random model of one of the four kinds and looks up every entry both ways, and others; words through word-level models are compared with the vocabulary; non-trivial: a vocabulary of at least five entries",
		Run:  also(waysToo(vocabModel, 10, -1), 8, gen.Opts{Model: "wordlevel", NoPost: true})})
}

// wordsFor makes words and the pieces a vocabulary is made for.
func wordsFor(r *rand.Rand) (made, asked []string) {
	add := func(n int) (out []string) {
		for i := 0; i < n; i++ {
			switch r.Intn(5) {
			case 0:
				out = append(out, gen.Word(r))
			case 1:
				var b strings.Builder
				al := gen.Pick(r, "ab", "abc", "aé", "中a", "ab▁", "<a>&", "\"\\a/'", "a\u2028\u2029\ufeff", "a\t\x01\x7f")
				rs := []rune(al)
				for j := r.Intn(14); j >= 0; j-- {
					b.WriteRune(rs[r.Intn(len(rs))])
				}
				out = append(out, b.String())
			case 2:
				out = append(out, strings.ReplaceAll(gen.Plain(r), " ", ""))
			case 3:
				out = append(out, gen.Word(r)+gen.Word(r))
			default:
				out = append(out, gen.Pick(r, strings.Fields(gen.Any(r)+" a")...))
			}
		}
		return
	}
	made = add(8)
	if r.Intn(3) == 0 {
		// of a certain length, on and around limits
		n := gen.Pick(r, 4, 5, 6, 12, 13, 99, 100, 101, 128, 255, 256, 257, 300)
		x := []rune(strings.Repeat(gen.Pick(r, "a", "ab", "é", "中", gen.Pick(r, made...)), n))
		if len(x) > n {
			x = x[:n]
		}
		made = append(made, string(x))
	}
	asked = append(append([]string{}, made...), add(8)...)
	for i := 0; i < 4; i++ {
		a := []rune(gen.Pick(r, made...))
		asked = append(asked, string(a[:r.Intn(len(a)+1)])+gen.Pick(r, made...))
	}
	if r.Intn(150) == 0 {
		l := gen.Pick(r, made...)
		for l != "" && len(l) < 700 {
			l += gen.Pick(r, made...)
		}
		asked = append(asked, l)
	}
	// words much like others
	for i := 0; i < 4; i++ {
		w := gen.Pick(r, asked...)
		switch r.Intn(6) {
		case 0:
			w = gen.Pick(r, strings.ToUpper(w), strings.ToLower(w), strings.ToTitle(w))
		case 1:
			w = gen.Pick(r, " ", "\t", "\u00a0") + w
		case 2:
			w += gen.Pick(r, " ", "\n", "\u3000")
		case 3:
			w = gen.Pick(r, norm.NFC, norm.NFD, norm.NFKC).String(w)
		case 4:
			// and long ones with the same beginning or end
			l := strings.Repeat(gen.Pick(r, "ab", "é", "a中", "abc"), 12+r.Intn(30))
			asked = append(asked, l+gen.Pick(r, made...))
			w = gen.Pick(r, l+gen.Pick(r, made...), gen.Pick(r, made...)+l)
		default:
			w = w + w
		}
		asked = append(asked, w)
	}
	for i := range made {
		if rs := []rune(made[i]); len(rs) > 300 {
			made[i] = string(rs[:300])
		}
	}
	return
}

func toToks(ts []tokenizer.Token) []ref.Tok {
	out := []ref.Tok{}
	for _, t := range ts {
		x := ref.Tok{Id: t.Id, Value: t.Value, S: -1, E: -1}
		if len(t.Offsets) == 2 {
			x.S, x.E = t.Offsets[0], t.Offsets[1]
		}
		out = append(out, x)
	}
	return out
}

func nz(ts []ref.Tok) []ref.Tok {
	if ts == nil {
		return []ref.Tok{}
	}
	return ts
}

// simpleModel compares a model with its reference word by word.
func simpleModel(c *core.C, mk func([]string) gen.Model) {
	made, asked := wordsFor(c.R)
	m := mk(made)
	for _, w := range asked {
		desc := fmt.Sprintf("%s %v on %+q", m.Name, short(m.Vocab), w)
		c.Detail("%s", desc)
		want, ok := m.Ref(w)
		got, err := m.Real.Tokenize(w)
		c.Eval(desc, len(want) > 1)
		if ok != (err == nil) {
			c.Fail("error", "error %v, want %v: %s", err, !ok, desc)
			return
		}
		if err != nil {
			continue
		}
		if g := toToks(got); !reflect.DeepEqual(g, nz(want)) {
			c.Fail("tokens", "got %+v want %+v: %s", g, want, desc)
			return
		}
		c.NoteN("tokens compared", len(want))
		if len(want) == 1 && want[0].S == 0 && want[0].E == len(w) {
			c.Note("words kept whole or unknown")
		}
	}
}

func short(v map[string]int) string {
	if len(v) > 5000 {
		few := map[string]int{}
		for k, id := range v {
			if !strings.HasPrefix(k, "\x01fill") {
				few[k] = id
			}
		}
		return fmt.Sprintf("%d entries, with %s", len(v), short(few))
	}
	s := fmt.Sprintf("%+q", v)
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return s
}

func bpeModel(c *core.C) {
	r := c.R
	made, asked := wordsFor(r)
	o := gen.BPEOpts{Affixes: r.Intn(2) == 0, Unk: gen.Pick(r, "", "[UNK]", "<unk>"), Merges: gen.Pick(r, 5, 20, 60, 60)}
	src := made
	if o.Unk == "" {
		src = asked // no unknown character may come up
		o.Affixes = false
	}
	b := gen.BPE(r, src, o)
	if o.Unk != "" && r.Intn(8) == 0 {
		delete(b.Vocab, b.Unk) // an unknown token that has no entry is none
	}
	rf := b.New()
	type inst struct {
		name string
		m    *bpe.BPE
	}
	var ms []inst
	for _, cache := range []int{-1, 0, 1, 3} {
		m, err := gen.RealBPE(b, cache, 0)
		if err != nil {
			c.Fail("build", "%v", err)
			return
		}
		ms = append(ms, inst{fmt.Sprintf("cache %d", cache), m})
	}
	ms = append(ms, inst{"bare", nil})
	if o.Unk == "" && b.Prefix == "" && b.Suffix == "" {
		ms[4].m = bpe.NewBPE(gen.Copy(b.Vocab), gen.RealMerges(b))
	} else {
		ms = ms[:4]
	}
	name := fmt.Sprintf("bpe prefix %q suffix %q unk %q merges %+q vocab %s", b.Prefix, b.Suffix, b.Unk, b.Merges, short(b.Vocab))
	order := append([]string{}, asked...)
	order = append(order, asked...) // a second time, from the cache
	r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	for k, w := range order {
		want, ok := rf(w)
		if !ok {
			// a model without an unknown token cannot say anything
			for _, in := range ms {
				if got, err := in.m.Tokenize(w); err == nil {
					c.Fail("no-error", "%s, word %d %+q: got %+v and no error, a character has no token: %s", in.name, k, w, toToks(got), name)
					return
				}
			}
			c.Note("words that are errors")
			continue
		}
		c.Eval(name+w, len(want) < utf8.RuneCountInString(w))
		c.Detail("%+q: %s", w, name)
		for _, in := range ms {
			if r.Intn(40) == 0 {
				in.m.ClearCache()
				c.Note("caches cleared")
			}
			got, err := in.m.Tokenize(w)
			if err != nil {
				c.Fail("error", "%v: %s of %+q", err, name, w)
				return
			}
			if g := toToks(got); !reflect.DeepEqual(g, nz(want)) {
				c.Fail("tokens", "%s, word %d %+q: got %+v want %+v: %s", in.name, k, w, g, want, name)
				return
			}
			// what a caller does to the result is its own affair
			for i := range got {
				got[i].Offsets[0], got[i].Id = -7, -7
			}
		}
		c.NoteN("tokens compared", len(want))
		c.NoteN("merges applied", utf8.RuneCountInString(w)-len(want))
	}
	for _, in := range ms {
		if in.m.Cache != nil && in.m.Cache.GetSize() > in.m.Cache.Capacity {
			c.Fail("cache-size", "the cache holds %d words, its capacity is %d", in.m.Cache.GetSize(), in.m.Cache.Capacity)
		}
	}
	// dropout
	all, err := gen.RealBPE(b, -1, 1)
	if err != nil {
		c.Fail("build", "%v", err)
		return
	}
	some, err := gen.RealBPE(b, -1, .4)
	if err != nil {
		c.Fail("build", "%v", err)
		return
	}
	none := *b
	none.Merges = nil
	chars := none.New()
	derive := deriver(b)
	differ := false
	for _, w := range asked[:8] {
		cs, ok := chars(w)
		if !ok {
			continue
		}
		got, err := all.Tokenize(w)
		if g := toToks(got); err != nil || !reflect.DeepEqual(g, nz(cs)) {
			c.Fail("dropout-1", "dropping every merge of %+q: got %+v %v want %+v: %s", w, g, err, cs, name)
			return
		}
		full, _ := rf(w)
		for k := 0; k < 4; k++ {
			got, err := some.Tokenize(w)
			g := toToks(got)
			if err != nil {
				c.Fail("error", "%v", err)
				return
			}
			at := 0
			ci := 0
			for _, t := range g {
				start := ci
				for ci < len(cs) && cs[ci].E <= t.E {
					ci++
				}
				if t.S != at || ci == start || cs[ci-1].E != t.E || !derive(cs[start:ci])[t.Id] {
					c.Fail("dropout", "token %+v of %+q cannot come of merges: %+v: %s", t, w, g, name)
					return
				}
				if v, ok := some.IdToToken(t.Id); !ok || v != t.Value {
					c.Fail("dropout", "token %+v of %+q: its id names %q", t, w, v)
					return
				}
				at = t.E
			}
			if at != len(w) {
				c.Fail("dropout", "the tokens of %+q end at %d: %+v", w, at, g)
				return
			}
			if !reflect.DeepEqual(g, nz(full)) {
				differ = true
			}
			c.Note("tokenizations with dropout")
		}
		_ = full
	}
	if differ {
		c.Note("cases where dropout changed something")
	}
}

// deriver says which tokens merges can make of a row of characters.
func deriver(b *ref.BPE) func([]ref.Tok) map[int]bool {
	type key struct{ x, y int }
	merges := map[key]int{}
	for _, m := range b.Merges {
		merges[key{b.Vocab[m[0]], b.Vocab[m[1]]}] = b.Vocab[m[0]+strings.TrimPrefix(m[1], b.Prefix)]
	}
	return func(cs []ref.Tok) map[int]bool {
		n := len(cs)
		if n > 40 {
			n = 40 // no merge makes anything that long
		}
		t := make([][]map[int]bool, n)
		for i := range t {
			t[i] = make([]map[int]bool, n)
			t[i][i] = map[int]bool{cs[i].Id: true}
		}
		for l := 2; l <= n; l++ {
			for i := 0; i+l <= n; i++ {
				m := map[int]bool{}
				for k := i; k < i+l-1; k++ {
					for x := range t[i][k] {
						for y := range t[k+1][i+l-1] {
							if z, ok := merges[key{x, y}]; ok {
								m[z] = true
							}
						}
					}
				}
				t[i][i+l-1] = m
			}
		}
		return t[0][n-1]
	}
}

func uniModel(c *core.C) {
	r := c.R
	made, asked := wordsFor(r)
	u := gen.Uni(r, made, nil)
	if r.Intn(12) == 0 {
		u.Unk = -1
	}
	real, err := gen.RealUni(u)
	if err != nil {
		c.Fail("build", "%v", err)
		return
	}
	rf := u.New()
	for i := 0; i < 4; i++ {
		// bytes that are no characters
		w := gen.Pick(r, asked...)
		k := r.Intn(len(w) + 1)
		asked = append(asked, w[:k]+gen.Pick(r, "\xff", "\x80", "\xe4\xb8", "\xc3", "\xf0\x9f", "\xed\xa0\x80")+w[k:])
	}
	for _, w := range asked {
		if strings.Contains(w, "<unk>") {
			continue
		}
		desc := fmt.Sprintf("unigram fuse=%v bytes=%v unk=%d %+q %.3f on %+q", u.Fuse, u.Bytes, u.Unk, u.Toks, u.Scores, w)
		c.Detail("%s", desc)
		best, can := u.Best(w)
		_, ok := rf(w)
		if !ok || u.Unk < 0 {
			c.Note("words without a segmentation or models without an unknown token")
			if !can {
				continue
			}
		}
		// every segmentation of a short word, by enumeration
		if len(w) <= 9 {
			if e := enumerate(u, w); math.Abs(e-best) > 1e-9 {
				panic(fmt.Sprintf("the two references differ: %v %v", e, best))
			}
			c.Note("words whose segmentations were enumerated")
		}
		if u.Unk < 0 && needsUnk(u, w) {
			continue
		}
		got, err := real.Tokenize(w)
		if err != nil {
			c.Fail("error", "%v: %s", err, desc)
			return
		}
		g := toToks(got)
		c.Eval(desc, len(g) > 1)
		if e := u.Check(w, g); e != nil {
			c.Fail("segmentation", "%v: %+v: %s", e, g, desc)
			return
		}
		again, err := real.Tokenize(w)
		if err != nil || !reflect.DeepEqual(toToks(again), g) {
			c.Fail("again", "the second time %+v %v, the first %+v: %s", toToks(again), err, g, desc)
			return
		}
		c.NoteN("tokens checked", len(g))
		if !utf8.ValidString(w) {
			c.Note("words that are not valid UTF-8")
		}
		for _, t := range g {
			switch {
			case t.Id == u.Unk:
				c.Note("unknown tokens")
			case strings.HasPrefix(t.Value, "<0x"):
				c.Note("byte tokens")
			}
		}
	}
}

// needsUnk says whether a character of a word has no entry.
func needsUnk(u *ref.Uni, w string) bool {
	ids := u.Ids()
	for i := 0; i < len(w); {
		_, n := utf8.DecodeRuneInString(w[i:])
		if _, ok := ids[w[i:i+n]]; !ok {
			return true
		}
		i += n
	}
	return false
}

func enumerate(u *ref.Uni, w string) float64 {
	ids := u.Ids()
	var rec func(at int) float64
	rec = func(at int) float64 {
		if at == len(w) {
			return 0
		}
		best := math.Inf(-1)
		for e := at + 1; e <= len(w); e++ {
			p := w[at:e]
			s := math.Inf(-1)
			if id, ok := ids[p]; ok {
				s = u.Scores[id]
			} else if _, n := utf8.DecodeRuneInString(w[at:]); n == e-at && (u.Unk >= 0 || u.Bytes) {
				s = u.Min() - 10
			} else {
				continue
			}
			best = math.Max(best, s+rec(e))
		}
		return best
	}
	return rec(0)
}

func vocabModel(c *core.C) {
	r := c.R
	made, asked := wordsFor(r)
	var m gen.Model
	kind := r.Intn(4)
	switch kind {
	case 0:
		m = gen.MakeBPE(r, made, gen.BPEOpts{Affixes: r.Intn(2) == 0, Unk: "[UNK]", Merges: 20})
	case 1:
		m = gen.MakeWordPiece(r, made, nil)
	case 2:
		m = gen.MakeWordLevel(r, made, nil)
	default:
		m = gen.MakeUni(r, made, nil)
	}
	desc := m.Name + " " + short(m.Vocab)
	c.Eval(desc, len(m.Vocab) >= 5)
	c.Detail("%s", desc)
	size := len(m.Vocab)
	check := func(when string, v interface {
		GetVocab() map[string]int
		GetVocabSize() int
		TokenToId(string) (int, bool)
		IdToToken(int) (string, bool)
	}) bool {
		if n := v.GetVocabSize(); n != size {
			c.Fail("size", "%s: size %d of %d entries: %s", when, n, size, desc)
			return false
		}
		if got := v.GetVocab(); !reflect.DeepEqual(map[string]int(got), m.Vocab) {
			c.Fail("vocab", "%s: vocabulary %s: %s", when, short(got), desc)
			return false
		}
		for k, id := range m.Vocab {
			if got, ok := v.TokenToId(k); !ok || got != id {
				c.Fail("token-to-id", "%s: %q is %d %v want %d: %s", when, k, got, ok, id, desc)
				return false
			}
			if got, ok := v.IdToToken(id); !ok || got != k {
				c.Fail("id-to-token", "%s: %d is %q %v want %q: %s", when, id, got, ok, k, desc)
				return false
			}
			c.Note("entries looked up both ways")
		}
		for i := 0; i < 6; i++ {
			k := gen.Pick(r, asked...) + gen.Pick(r, "", "q", "##")
			if _, in := m.Vocab[k]; !in {
				if id, ok := v.TokenToId(k); ok {
					c.Fail("stranger", "%s: %q is no entry but has id %d: %s", when, k, id, desc)
					return false
				}
			}
			id := gen.Pick(r, size, size+1, size+1000, -1, -7)
			if k, ok := v.IdToToken(id); ok {
				c.Fail("stranger-id", "%s: id %d is no entry but names %q: %s", when, id, k, desc)
				return false
			}
			c.Note("strangers looked up")
		}
		return true
	}
	if !check("fresh", m.Real) {
		return
	}
	tk := tokenizer.NewTokenizer(m.Real)
	for _, w := range asked {
		if m.Uni != nil && strings.Contains(w, "<unk>") {
			continue
		}
		got, err := m.Real.Tokenize(w)
		want, ok := m.Ref(w)
		if ok != (err == nil) {
			c.Fail("error", "%+q: %v: %s", w, err, desc)
			return
		}
		if m.Uni != nil {
			continue
		}
		if g := toToks(got); !reflect.DeepEqual(g, nz(want)) {
			c.Fail("tokens", "%+q: got %+v want %+v: %s", w, g, want, desc)
			return
		}
		c.Note("words tokenized")
	}
	// a tokenizer over the model answers the same, and asking changes nothing
	if !check("after use", m.Real) {
		return
	}
	tk.AddTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("brand new token", false)})
	v := tk.GetVocab(true)
	v["planted"] = 1
	if len(v) != size+2 || tk.GetVocabSize(true) != size+1 || tk.GetVocabSize(false) != size {
		c.Fail("with-added", "%d entries, sizes %d and %d, want %d: %s", len(v), tk.GetVocabSize(true), tk.GetVocabSize(false), size, desc)
		return
	}
	check("after GetVocab", m.Real)
}
