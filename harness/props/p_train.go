package props

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/wordpiece"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "P17", Race: true, Quick: 1500, Thorough: 20000,
		Rule: "each case makes random word counts (with ties, repeats, shared pairs; sometimes over 10000 words, so that several workers count) and trainer options, trains under the race detector, and compares vocabulary, merges in order (read from the saved model), special tokens and the tokens of words with a naive trainer that recounts every pair at every step; a second training must agree; non-trivial: at least two merges",
		Run:  bpeTraining})
	core.Register(&core.Prop{ID: "P18", Quick: 3000, Thorough: 25000,
		Rule: "each case makes random word counts and options, trains WordPiece, and compares the vocabulary with a naive trainer's, and checks that special tokens come first, that ids are dense, and that every training word of kept characters is spelt by known pieces; models made from random BPE models must agree with them; non-trivial: at least two merges",
		Run:  waysToo(wpTraining, 20, 1)})
}

// counts makes words with counts.
func counts(r *rand.Rand, n int) map[string]int {
	wc := map[string]int{}
	alpha := []rune(gen.Pick(r, "ab", "abc", "abcdefgh", "aéb", "中文a", "low er", "a▁b", "ab#"))
	same := r.Intn(3) == 0
	count := func() int {
		if same {
			return 1
		}
		return gen.Pick(r, 1, 1, 2, 3, 1+r.Intn(20), 1+r.Intn(1000))
	}
	for len(wc) < n {
		switch r.Intn(6) {
		case 0:
			wc[gen.Word(r)] = count()
		case 1:
			for _, w := range strings.Fields(gen.Any(r)) {
				wc[w] += count()
			}
		case 2:
			wc[strings.Repeat(string(alpha[r.Intn(len(alpha))]), 1+r.Intn(9))] = count()
		default:
			var b strings.Builder
			for i := r.Intn(gen.Pick(r, 3, 8, 14)); i >= 0; i-- {
				b.WriteRune(alpha[r.Intn(len(alpha))])
			}
			if n > 5000 {
				b.WriteString(fmt.Sprint(len(wc)))
			}
			wc[b.String()] = count()
		}
	}
	delete(wc, "")
	return wc
}

func trainOpts(r *rand.Rand, wc map[string]int, wp bool) ref.BPETrain {
	t := ref.BPETrain{Limit: -1, MinFreq: gen.Pick(r, 0, 0, 1, 2, 5)}
	for i := r.Intn(4); i > 0; i-- {
		t.Specials = append(t.Specials, gen.Pick(r, "[UNK]", "[CLS]", "<s>", "a", "ab", "##a", "low", "é"))
	}
	for i := r.Intn(3); i > 0; i-- {
		t.Initial = append(t.Initial, gen.Pick(r, "a", "z", "é", "Q", "中", "!"))
	}
	if r.Intn(4) == 0 {
		t.Limit = r.Intn(8)
	}
	if wp {
		t.Prefix = gen.Pick(r, "##", "##", "##", "@@", "#")
	} else {
		if r.Intn(3) == 0 {
			t.Prefix = gen.Pick(r, "##", "@", "a", "é")
		}
		if r.Intn(3) == 0 {
			t.Suffix = gen.Pick(r, "</w>", "_", "b")
		}
	}
	base := len(ref.BPETrain{Size: 0, Specials: t.Specials, Initial: t.Initial, Limit: t.Limit, Prefix: t.Prefix, Suffix: t.Suffix}.Run(wc, nil).Vocab)
	t.Size = base + gen.Pick(r, 0, 1, 2, 5, 10, 20, 40, 80)
	switch r.Intn(10) {
	case 0:
		t.Size = r.Intn(base + 1)
	case 1:
		t.Size = 30000
	}
	return t
}

// words with counts in a form fit for reading
func showCounts(wc map[string]int) string {
	var ks []string
	for k := range wc {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for i, k := range ks {
		if i > 60 {
			fmt.Fprintf(&b, "... (%d words)", len(ks))
			break
		}
		fmt.Fprintf(&b, "%+q:%d ", k, wc[k])
	}
	return b.String()
}

func specialsOf(t ref.BPETrain) []tokenizer.AddedToken {
	var out []tokenizer.AddedToken
	for _, s := range t.Specials {
		out = append(out, tokenizer.NewAddedToken(s, true))
	}
	return out
}

func alphabetOf(t ref.BPETrain) bpe.CharSet {
	if t.Initial == nil {
		return nil
	}
	cs := bpe.CharSet{}
	for _, x := range t.Initial {
		cs[x] = struct{}{}
	}
	return cs
}

// tallied says whether counting the tokens of texts, in any order and number of steps, gives these counts.
func tallied(r *rand.Rand, wc map[string]int, process func(words map[string]int, tokens []string)) string {
	var toks []string
	want := map[string]int{}
	for w, n := range wc {
		if n > 20 || len(want) > 200 {
			continue
		}
		want[w] = n
		for ; n > 0; n-- {
			toks = append(toks, w)
		}
	}
	sort.Strings(toks)
	r.Shuffle(len(toks), func(i, j int) { toks[i], toks[j] = toks[j], toks[i] })
	got := map[string]int{}
	for len(toks) > 0 {
		n := min(len(toks), r.Intn(9))
		process(got, toks[:n])
		toks = toks[n:]
	}
	if d := diffVocab(got, want); d != "" {
		return "counting tokens: " + d
	}
	return ""
}

func realTrainer(t ref.BPETrain, direct bool) *bpe.BpeTrainer {
	if direct {
		// without the builder
		bt := bpe.NewBpeTrainer(t.MinFreq, t.Size)
		bt.ShowProgress = false
		bt.SpecialTokens = specialsOf(t)
		bt.InitialAlphabet = alphabetOf(t)
		if t.Limit >= 0 {
			bt.LimitAlphabet = &t.Limit
		}
		if t.Prefix != "" {
			bt.ContinuingSubwordPrefix = &t.Prefix
		}
		if t.Suffix != "" {
			bt.EndOfWordSuffix = &t.Suffix
		}
		return bt
	}
	b := bpe.NewBPETrainerBuilder()
	b.MinFrequency(t.MinFreq)
	b.VocabSize(t.Size)
	b.ShowProgress(false)
	b.SpecialTokens(specialsOf(t))
	if t.Limit >= 0 {
		b.LimitAlphabet(t.Limit)
	}
	b.InitialAlphabet(alphabetOf(t))
	if t.Prefix != "" {
		b.ContinuingSubwordPrefix(t.Prefix)
	}
	if t.Suffix != "" {
		b.EndOfWordSuffix(t.Suffix)
	}
	return b.Build()
}

// savedMerges are the merges of a model in order, as it saves them.
func savedMerges(m tokenizer.Model) ([]string, error) {
	d, err := os.MkdirTemp(os.Getenv("VDRV_SCRATCH"), "m")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(d)
	if err := m.Save(d); err != nil {
		return nil, err
	}
	b, err := os.ReadFile(filepath.Join(d, "merges.txt"))
	if err != nil {
		return nil, err
	}
	var out []string
	for i, l := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
		if i == 0 && strings.HasPrefix(l, "#version") || l == "" {
			continue
		}
		out = append(out, l)
	}
	return out, nil
}

// vagueNames says whether parts of tokens could be read in several ways: merges join names,
// and a name in front of which the prefix may be taken away must have been given it.
func vagueNames(t ref.BPETrain, wc map[string]int) bool {
	if t.Prefix == "" {
		return false
	}
	for w := range wc {
		if strings.HasPrefix(w, t.Prefix) || strings.Contains(w, t.Prefix) {
			return true
		}
	}
	return false
}

func bpeTraining(c *core.C) {
	r := c.R
	n := gen.Pick(r, 1, 2, 4, 10, 30, 80)
	if r.Intn(60) == 0 {
		n = 10000 + r.Intn(300)
	}
	wc := counts(r, n)
	if n > 5000 {
		// words at the ends of the workers' shares weigh a lot
		var ks []string
		for k := range wc {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, i := range []int{0, len(ks) / 4, len(ks)/4 - 1, len(ks) / 2, 3*len(ks)/4 - 1, len(ks) - 3, len(ks) - 2, len(ks) - 1} {
			if r.Intn(3) > 0 {
				wc[ks[i]] = 1000000 + r.Intn(100000)
			}
		}
	}
	t := trainOpts(r, wc, false)
	if n > 5000 {
		none := t
		none.Size = 0
		t.Size = min(t.Size, len(none.Run(wc, nil).Vocab)+gen.Pick(r, 3, 10, 20))
	}
	if vagueNames(t, wc) {
		t.Prefix = ""
	}
	steps := 0
	want := t.Run(wc, func([2]string, int) { steps++ })
	desc := fmt.Sprintf("%+v on %s", t, showCounts(wc))
	c.Detail("%s", desc)
	c.Eval(desc, steps > 1)
	c.NoteN("merges", steps)
	if n > 5000 {
		c.Note("trainings with several counting workers")
	}
	given := gen.Copy(wc)
	tr := realTrainer(t, r.Intn(4) == 0)
	if d := tallied(r, wc, tr.ProcessTokens); d != "" {
		c.Fail("tally", "%s: %s", d, desc)
		return
	}
	m, sp := tr.Train(given)
	if d := diffVocab(given, wc); d != "" {
		c.Fail("input", "training changed the word counts: %s: %s", d, desc)
		return
	}
	if d := diffVocab(m.GetVocab(), want.Vocab); d != "" {
		c.Fail("vocab", "%s: %s", d, desc)
		return
	}
	if len(sp) != len(t.Specials) {
		c.Fail("specials", "%d special tokens: %s", len(sp), desc)
		return
	}
	for i := range sp {
		if sp[i].Content != t.Specials[i] {
			c.Fail("specials", "special token %d is %+q: %s", i, sp[i].Content, desc)
			return
		}
	}
	got, err := savedMerges(m)
	if err != nil {
		c.Fail("save", "%v: %s", err, desc)
		return
	}
	var lines []string
	clean := true
	for _, p := range want.Merges {
		lines = append(lines, p[0]+" "+p[1])
		clean = clean && !strings.ContainsAny(p[0]+p[1], "\n")
	}
	if clean && !sameStrings(got, lines) {
		c.Fail("merges", "merges %+q, not %+q: %s", got, lines, desc)
		return
	}
	// the trained model
	tokenize := want.New()
	i := 0
	for w := range wc {
		if i++; i > 100 {
			break
		}
		toks, ok := tokenize(w)
		if !ok {
			continue // a character was left out, and there is no unknown token
		}
		real, err := m.Tokenize(w)
		if err != nil {
			c.Fail("tokenize", "%v on %+q: %s", err, w, desc)
			return
		}
		if len(real) != len(toks) {
			c.Fail("tokens", "%+q gives %+v, not %+v: %s", w, real, toks, desc)
			return
		}
		for k := range toks {
			if real[k].Id != toks[k].Id || real[k].Value != toks[k].Value {
				c.Fail("tokens", "%+q gives %+v, not %+v: %s", w, real, toks, desc)
				return
			}
		}
		c.Note("training words tokenized")
	}
	// again
	m2, _ := realTrainer(t, false).Train(gen.Copy(wc))
	if r.Intn(2) == 0 {
		m2, _ = tr.Train(gen.Copy(wc))
	}
	if d := diffVocab(m2.GetVocab(), want.Vocab); d != "" {
		c.Fail("again", "a second training differs: %s: %s", d, desc)
		return
	}
	if again, err := savedMerges(m2); err != nil || !sameStrings(again, got) {
		c.Fail("again", "a second training has merges %+q, not %+q (%v): %s", again, got, err, desc)
	}
}

func wpTraining(c *core.C) {
	r := c.R
	if r.Intn(4) == 0 {
		fromBPE(c)
		return
	}
	wc := counts(r, gen.Pick(r, 1, 2, 4, 10, 30, 60))
	t := trainOpts(r, wc, true)
	if vagueNames(t, wc) {
		for w := range wc {
			if strings.Contains(w, t.Prefix) {
				delete(wc, w)
			}
		}
		if len(wc) == 0 {
			wc["a"] = 1
		}
	}
	withUnk := r.Intn(3) > 0
	if withUnk {
		t.Specials = append(t.Specials, "[UNK]")
	}
	steps := 0
	want := t.Run(wc, func([2]string, int) { steps++ })
	desc := fmt.Sprintf("%+v on %s", t, showCounts(wc))
	c.Detail("%s", desc)
	c.Eval(desc, steps > 1)
	c.NoteN("merges", steps)
	b := wordpiece.NewWordPieceTrainerBuilder().MinFrequency(t.MinFreq).VocabSize(t.Size).ShowProgress(false).SpecialTokens(specialsOf(t)).InitialAlphabet(alphabetOf(t))
	if t.Limit >= 0 {
		b = b.LimitAlphabet(t.Limit)
	}
	if t.Prefix != "##" || r.Intn(2) == 0 {
		b = b.ContinuingSubwordPrefix(t.Prefix)
	}
	wpt := b.Build()
	if d := tallied(r, wc, wpt.ProcessTokens); d != "" {
		c.Fail("tally", "%s: %s", d, desc)
		return
	}
	m := wpt.Train(gen.Copy(wc))
	v := m.GetVocab()
	if d := diffVocab(v, want.Vocab); d != "" {
		c.Fail("vocab", "%s: %s", d, desc)
		return
	}
	byId := map[int]string{}
	for x, id := range v {
		if id < 0 || id >= len(v) {
			c.Fail("ids", "id %d of %+q in a vocabulary of %d: %s", id, x, len(v), desc)
			return
		}
		byId[id] = x
	}
	if len(byId) != len(v) || m.GetVocabSize() != len(v) {
		c.Fail("ids", "%d ids of %d tokens, size %d: %s", len(byId), len(v), m.GetVocabSize(), desc)
		return
	}
	at := 0
	for i, s := range t.Specials {
		first := true
		for _, e := range t.Specials[:i] {
			first = first && e != s
		}
		if first {
			if byId[at] != s {
				c.Fail("specials", "id %d is %+q, not %+q: %s", at, byId[at], s, desc)
				return
			}
			at++
		}
	}
	greedy := ref.WordPiece(want.Vocab, "[UNK]", t.Prefix, 100)
	for w := range wc {
		toks, ok := greedy(w)
		real, err := m.Tokenize(w)
		if ok != (err == nil) {
			c.Fail("error", "error %v on %+q: %s", err, w, desc)
			return
		}
		if err != nil {
			continue
		}
		if len(toks) != len(real) {
			c.Fail("tokens", "%+q gives %+v, not %+v: %s", w, real, toks, desc)
			return
		}
		spelt := ""
		for k := range toks {
			if real[k].Id != toks[k].Id || real[k].Value != toks[k].Value {
				c.Fail("tokens", "%+q gives %+v, not %+v: %s", w, real, toks, desc)
				return
			}
			x := real[k].Value
			if k > 0 {
				if !strings.HasPrefix(x, t.Prefix) {
					c.Fail("prefix", "%+q gives %+v: %s", w, real, desc)
					return
				}
				x = strings.TrimPrefix(x, t.Prefix)
			}
			spelt += x
		}
		kept := len([]rune(w)) <= 100
		for _, x := range w {
			_, ok := v[string(x)]
			kept = kept && ok
		}
		if kept && spelt != w {
			c.Fail("spelling", "%+q gives %+v: %s", w, real, desc)
			return
		}
		if kept {
			c.Note("training words spelt")
		}
	}
}

// fromBPE makes a WordPiece model out of a BPE model.
func fromBPE(c *core.C) {
	r := c.R
	made, asked := wordsFor(r)
	o := gen.BPEOpts{Affixes: true, Merges: 30}
	if r.Intn(4) > 0 {
		o.Unk = gen.Pick(r, "[UNK]", "<unk>", "u")
	}
	b := gen.BPE(r, made, o)
	b.Suffix = ""
	real, err := gen.RealBPE(b, -1, 0)
	if err != nil {
		return // a suffix is missing in the merges
	}
	wp := wordpiece.NewWordPieceFromBPE(*real)
	desc := fmt.Sprintf("from BPE with unknown token %q, prefix %q, %d entries", b.Unk, b.Prefix, len(b.Vocab))
	if d := diffVocab(wp.GetVocab(), b.Vocab); d != "" {
		c.Fail("from-bpe", "%s: %s", desc, d)
		return
	}
	unk, prefix := b.Unk, b.Prefix
	if unk == "" {
		unk = "[UNK]"
	}
	if prefix == "" {
		prefix = "##"
	}
	tokenize := ref.WordPiece(b.Vocab, unk, prefix, 100)
	for _, w := range asked {
		want, ok := tokenize(w)
		got, err := wp.Tokenize(w)
		d := fmt.Sprintf("%s on %+q", desc, w)
		c.Eval(d, len(want) > 1)
		if ok != (err == nil) {
			c.Fail("from-bpe", "%s: error %v, want %v", d, err, !ok)
			return
		}
		if err != nil {
			continue
		}
		if fmt.Sprint(toToks(got)) != fmt.Sprint(want) {
			c.Fail("from-bpe", "%s gives %+v, not %+v", d, got, want)
			return
		}
		c.Note("words through models made from BPE")
	}
}
