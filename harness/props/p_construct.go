package props

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/unigram"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/model/wordpiece"
	"github.com/sugarme/tokenizer/pretrained"
	"github.com/sugarme/tokenizer/util"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "P31", Quick: 1500, Thorough: 60000,
		Rule: "each case chooses settings for a model, leaving some at their defaults, and makes it in every way the package has (constructors, builders with their setters in random order and repeated, options, files, configurations, another model); each is compared with the reference model of these settings over vocabulary, lookups and the tokens of words; settings that make no model must give an error; non-trivial: at least three ways and a vocabulary of at least five entries",
		Run:  construct})
}

// way is one way to make a model.
type way struct {
	name string
	make func() (tokenizer.Model, error)
}

// wayCheck compares a model with what its settings say.
func wayCheck(c *core.C, m tokenizer.Model, vocab map[string]int, rf ref.Model, uni *ref.Uni, asked []string, what string) bool {
	if n := m.GetVocabSize(); n != len(vocab) {
		c.Fail("size", "%d entries want %d: %s", n, len(vocab), what)
		return false
	}
	if got := m.GetVocab(); len(got)+len(vocab) > 0 && !reflect.DeepEqual(map[string]int(got), vocab) {
		c.Fail("vocab", "vocabulary %s: %s", short(got), what)
		return false
	}
	for k, id := range vocab {
		if got, ok := m.TokenToId(k); !ok || got != id {
			c.Fail("token-to-id", "%q is %d %v want %d: %s", k, got, ok, id, what)
			return false
		}
		if got, ok := m.IdToToken(id); !ok || got != k {
			c.Fail("id-to-token", "%d is %q %v want %q: %s", id, got, ok, k, what)
			return false
		}
	}
	for _, w := range asked {
		want, ok := rf(w)
		c.Detail("%+q: %s", w, what)
		if uni != nil {
			if uni.Unk < 0 && needsUnk(uni, w) {
				continue
			}
			got, err := m.Tokenize(w)
			if err != nil {
				c.Fail("error", "%v: %+q: %s", err, w, what)
				return false
			}
			if e := uni.Check(w, toToks(got)); e != nil {
				c.Fail("tokens", "%v: %+v: %+q: %s", e, toToks(got), w, what)
				return false
			}
		} else {
			got, err := m.Tokenize(w)
			if ok != (err == nil) {
				c.Fail("error", "error %v want %v: %+q: %s", err, !ok, w, what)
				return false
			}
			if g := toToks(got); err == nil && !reflect.DeepEqual(g, nz(want)) {
				c.Fail("tokens", "%+q: got %+v want %+v: %s", w, g, want, what)
				return false
			}
		}
		c.Note("words compared")
	}
	return true
}

func construct(c *core.C) {
	constructOf(c, c.R.Intn(4))
}

// waysToo makes every n-th case one of a model of a kind made in every way.
func waysToo(run func(*core.C), n, kind int) func(*core.C) {
	return func(c *core.C) {
		if c.Idx%n != n/2 {
			run(c)
			return
		}
		if c.Note("cases of models made in every way"); kind < 0 {
			construct(c)
			return
		}
		constructOf(c, kind)
	}
}

func constructOf(c *core.C, kind int) {
	r := c.R
	made, asked := wordsFor(r)
	made = lineSafe(made)
	dir, err := os.MkdirTemp("", "verif-construct-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	switch kind {
	case 0:
		constructWordLevel(c, dir, made, asked)
	case 1:
		constructWordPiece(c, dir, made, asked)
	case 2:
		constructBPE(c, dir, made, asked)
	default:
		constructUni(c, made, asked)
	}
}

func tryWays(c *core.C, ways []way, vocab map[string]int, rf ref.Model, uni *ref.Uni, asked []string, what string) {
	c.R.Shuffle(len(ways), func(i, j int) { ways[i], ways[j] = ways[j], ways[i] })
	c.Eval(what, len(ways) >= 3 && len(vocab) >= 5)
	for _, w := range ways {
		d := w.name + ": " + what
		c.Detail("%s", d)
		m, err := w.make()
		if err != nil {
			c.Fail("make", "%v: %s", err, d)
			return
		}
		if !wayCheck(c, m, vocab, rf, uni, asked, d) {
			return
		}
		c.Note("models made: " + strings.SplitN(w.name, " (", 2)[0])
	}
}

// vocabLines makes a file of a vocabulary, a line an entry.
func vocabLines(dir string, v map[string]int) string {
	lines := make([]string, len(v))
	for k, id := range v {
		lines[id] = k
	}
	f := filepath.Join(dir, "vocab.txt")
	text := strings.Join(lines, "\n")
	if len(v)%3 > 0 {
		text += "\n" // it need not end with one
	}
	if err := os.WriteFile(f, []byte(text), 0o644); err != nil {
		panic(err)
	}
	return f
}

// fromConfig makes a model out of a configuration.
func fromConfig(j gen.J) (tokenizer.Model, error) {
	b, err := json.Marshal(j)
	if err != nil {
		panic(err)
	}
	var m map[string]any
	if err := json.Unmarshal(b, &m); err != nil {
		panic(err)
	}
	return pretrained.CreateModel(&tokenizer.Config{Model: m})
}

// steps runs setters in random order, some of them twice: the last time counts.
func steps(r *rand.Rand, fs ...[2]func()) string {
	var order []int
	for i, f := range fs {
		if f[1] != nil && r.Intn(4) == 0 {
			f[1]() // something else first
		}
		order = append(order, i)
	}
	r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	for _, i := range order {
		fs[i][0]()
	}
	return fmt.Sprint(order)
}

func constructWordLevel(c *core.C, dir string, made, asked []string) {
	r := c.R
	unk := gen.Pick(r, "<unk>", "<unk>", "[UNK]", "a")
	has := r.Intn(3) > 0
	set := append([]string{}, made[:r.Intn(len(made)+1)]...)
	if has {
		set = append(set, unk)
	}
	v := dense(r, set)
	_, has = v[unk]
	what := fmt.Sprintf("word-level unk %q in it %v of %s", unk, has, short(v))
	with := func() map[string]int { // with the unknown token, which the builder adds
		w := gen.Copy(v)
		if !has {
			w[unk] = len(v)
		}
		return w
	}
	file := vocabLines(dir, v)
	ways := []way{
		{"wordlevel.New", func() (tokenizer.Model, error) { return wordlevel.New(gen.Copy(v), unk) }},
		{"wordlevel.NewWorldLevelFromFile", func() (tokenizer.Model, error) { return wordlevel.NewWorldLevelFromFile(file, unk) }},
		{"config", func() (tokenizer.Model, error) {
			return fromConfig(gen.J{"type": "WordLevel", "vocab": v, "unk_token": unk})
		}},
	}
	if unk == "<unk>" {
		ways = append(ways, way{"wordlevel.New (default unk)", func() (tokenizer.Model, error) { return wordlevel.New(gen.Copy(v), "") }})
		ways = append(ways, way{"config (default unk)", func() (tokenizer.Model, error) { return fromConfig(gen.J{"type": "WordLevel", "vocab": v}) }})
		ways = append(ways, way{"wordlevel builder (Vocab)", func() (tokenizer.Model, error) {
			b := wordlevel.NewWordLevelBuilder()
			b.Vocab(gen.Copy(v))
			return b.Build(), nil
		}})
	}
	tryWays(c, ways, v, ref.WordLevel(v, unk), nil, asked, what)
	if c.Failed() {
		return
	}
	tryWays(c, []way{{"wordlevel builder (Vocab UnkToken)", func() (tokenizer.Model, error) {
		b := wordlevel.NewWordLevelBuilder()
		b.Vocab(gen.Copy(v))
		b.UnkToken(unk)
		if r.Intn(3) == 0 {
			b.UnkToken(unk)
		}
		return b.Build(), nil
	}}}, with(), ref.WordLevel(with(), unk), nil, asked, what)
	if c.Failed() {
		return
	}
	def := map[string]int{"<unk>": 0}
	tryWays(c, []way{
		{"wordlevel.NewWordLevel", func() (tokenizer.Model, error) { return wordlevel.NewWordLevel(), nil }},
		{"wordlevel builder (nothing)", func() (tokenizer.Model, error) { return wordlevel.NewWordLevelBuilder().Build(), nil }},
	}, def, ref.WordLevel(def, "<unk>"), nil, asked, "the default")
}

func constructWordPiece(c *core.C, dir string, made, asked []string) {
	r := c.R
	unk, pre, limit := gen.Pick(r, "[UNK]", "[UNK]", "<unk>"), gen.Pick(r, "##", "##", "@@", ""), gen.Pick(r, 100, 100, 5, 12, 0)
	has := r.Intn(6) > 0
	var set []string
	if has {
		set = append(set, unk)
	}
	for _, p := range made {
		rs := []rune(p)
		for i := range rs {
			j := min(len(rs), i+1+r.Intn(4))
			for _, s := range []string{string(rs[i : i+1]), string(rs[i:j])} {
				if i > 0 {
					s = pre + s
				}
				set = append(set, s)
			}
		}
	}
	v := dense(r, set)
	rf := ref.WordPiece(v, unk, pre, limit)
	what := fmt.Sprintf("wordpiece unk %q in it %v prefix %q limit %d of %s", unk, has, pre, limit, short(v))
	file := vocabLines(dir, v)
	vocab := func() *model.Vocab { x := model.Vocab(gen.Copy(v)); return &x }
	build := func(b wordpiece.WordPieceBuilder, files bool) (tokenizer.Model, error) {
		fs := [][2]func(){}
		if files {
			fs = append(fs, [2]func(){func() { b = b.Files(file) }, func() { b = b.Files("/nowhere") }})
		} else {
			fs = append(fs, [2]func(){func() { b = b.Vocab(vocab()) }, func() { b = b.Vocab(&model.Vocab{"other": 0}) }})
		}
		if unk != "[UNK]" || r.Intn(2) == 0 {
			fs = append(fs, [2]func(){func() { b = b.UnkToken(unk) }, func() { b = b.UnkToken("other") }})
		}
		if pre != "##" || r.Intn(2) == 0 {
			fs = append(fs, [2]func(){func() { b = b.ContinuingSubwordPrefix(pre) }, func() { b = b.ContinuingSubwordPrefix("other") }})
		}
		if limit != 100 || r.Intn(2) == 0 {
			fs = append(fs, [2]func(){func() { b = b.MaxInputCharsPerWord(limit) }, func() { b = b.MaxInputCharsPerWord(1) }})
		}
		steps(r, fs...)
		// builders made of this one are others
		_ = b.UnkToken("x").ContinuingSubwordPrefix("x").MaxInputCharsPerWord(2).Vocab(&model.Vocab{"x": 0}).Build()
		return b.Build(), nil
	}
	ways := []way{
		{"wordpiece builder", func() (tokenizer.Model, error) { return build(wordpiece.NewWordPieceBuilder(), false) }},
		{"wordpiece Builder()", func() (tokenizer.Model, error) { return build(wordpiece.NewWordPiece().Builder(), false) }},
		{"wordpiece builder (Files)", func() (tokenizer.Model, error) { return build(wordpiece.NewWordPieceBuilder(), true) }},
		{"wordpiece.NewWordPieceBuilderFromFile", func() (tokenizer.Model, error) {
			return build(wordpiece.NewWordPieceBuilderFromFile(file), true)
		}},
		{"wordpiece.New", func() (tokenizer.Model, error) {
			o := util.NewParams(nil)
			if unk != "[UNK]" || r.Intn(2) == 0 {
				o.Set("unk_token", unk)
			}
			if pre != "##" || r.Intn(2) == 0 {
				o.Set("continuing_subword_prefix", pre)
			}
			if limit != 100 || r.Intn(2) == 0 {
				o.Set("max_input_chars_per_word", limit)
			}
			return wordpiece.New(*vocab(), o)
		}},
		{"config", func() (tokenizer.Model, error) {
			j := gen.J{"type": "WordPiece", "vocab": v}
			if unk != "[UNK]" || r.Intn(2) == 0 {
				j["unk_token"] = unk
			}
			if pre != "##" || r.Intn(2) == 0 {
				j["continuing_subword_prefix"] = pre
			}
			if limit != 100 || r.Intn(2) == 0 {
				j["max_input_chars_per_word"] = limit
			}
			return fromConfig(j)
		}},
	}
	if pre == "##" {
		ways = append(ways, way{"wordpiece.NewWordPieceFromFile", func() (tokenizer.Model, error) {
			if limit == 100 && r.Intn(2) == 0 {
				return wordpiece.NewWordPieceFromFile(file, unk)
			}
			return wordpiece.NewWordPieceFromFile(file, unk, limit)
		}})
	}
	if limit == 100 {
		ways = append(ways, way{"wordpiece.NewWordPieceFromBPE", func() (tokenizer.Model, error) {
			b := bpe.NewBpeBuilder()
			b.VocabAndMerges(*vocab(), bpe.Merges{})
			if unk != "[UNK]" || r.Intn(2) == 0 {
				b.UnkToken(unk)
			}
			if pre != "##" || r.Intn(2) == 0 {
				b.ContinuingSubwordPrefix(pre)
			}
			m, err := b.Build()
			if err != nil {
				return nil, err
			}
			return wordpiece.NewWordPieceFromBPE(*m), nil
		}})
	}
	tryWays(c, ways, v, rf, nil, asked, what)
	if c.Failed() {
		return
	}
	// nothing in it
	none := ref.WordPiece(map[string]int{}, "[UNK]", "##", 100)
	tryWays(c, []way{
		{"wordpiece.NewWordPiece", func() (tokenizer.Model, error) { return wordpiece.NewWordPiece(), nil }},
		{"wordpiece builder (nothing)", func() (tokenizer.Model, error) { return wordpiece.NewWordPieceBuilder().Build(), nil }},
	}, map[string]int{}, none, nil, asked, "the default")
}

func constructBPE(c *core.C, dir string, made, asked []string) {
	r := c.R
	o := gen.BPEOpts{Affixes: r.Intn(2) == 0, Unk: gen.Pick(r, "[UNK]", "<unk>", ""), Merges: gen.Pick(r, 0, 5, 20, 60), CfgSafe: true}
	b := gen.BPE(r, made, o)
	rf := b.New()
	what := fmt.Sprintf("bpe prefix %q suffix %q unk %q merges %+q vocab %s", b.Prefix, b.Suffix, b.Unk, b.Merges, short(b.Vocab))
	vf, mf := filepath.Join(dir, "vocab.json"), filepath.Join(dir, "merges.txt")
	vb, err := json.Marshal(b.Vocab)
	if err != nil {
		panic(err)
	}
	var lines []string
	for _, m := range b.Merges {
		lines = append(lines, m[0]+" "+m[1])
	}
	text := strings.Join(lines, "\n")
	if len(lines) > 0 {
		text += "\n"
	}
	if r.Intn(2) == 0 {
		text = "#version: 0.2\n" + text
	}
	if err := os.WriteFile(vf, vb, 0o644); err != nil {
		panic(err)
	}
	if err := os.WriteFile(mf, []byte(text), 0o644); err != nil {
		panic(err)
	}
	var dropout *float32
	vocab := func() model.Vocab { return model.Vocab(gen.Copy(b.Vocab)) }
	cache := gen.Pick(r, -1, -1, 0, 1, 5)
	build := func(bb *bpe.BpeBuilder, files bool) (tokenizer.Model, error) {
		fs := [][2]func(){}
		if files {
			fs = append(fs, [2]func(){func() { bb.Files(vf, mf) }, func() { bb.Files("/nowhere", mf) }})
		} else {
			fs = append(fs, [2]func(){func() { bb.VocabAndMerges(vocab(), gen.RealMerges(b)) }, func() { bb.VocabAndMerges(model.Vocab{"other": 0}, bpe.Merges{}) }})
		}
		if b.Unk != "" {
			fs = append(fs, [2]func(){func() { bb.UnkToken(b.Unk) }, func() { bb.UnkToken("other") }})
		}
		if b.Prefix != "" {
			fs = append(fs, [2]func(){func() { bb.ContinuingSubwordPrefix(b.Prefix) }, func() { bb.ContinuingSubwordPrefix("other") }})
		}
		if b.Suffix != "" {
			fs = append(fs, [2]func(){func() { bb.EndOfWordSuffix(b.Suffix) }, func() { bb.EndOfWordSuffix("other") }})
		}
		if cache >= 0 {
			fs = append(fs, [2]func(){func() { bb.CacheCapacity(cache) }, func() { bb.CacheCapacity(2) }})
		}
		steps(r, fs...)
		m, err := bb.Build()
		if err != nil {
			return nil, err
		}
		switch {
		case cache == 0 && m.Cache != nil:
			return nil, fmt.Errorf("a cache of no words")
		case cache > 0 && (m.Cache == nil || m.Cache.Capacity != cache):
			return nil, fmt.Errorf("a cache for %d words is %+v", cache, m.Cache)
		case cache < 0 && (m.Cache == nil || m.Cache.Capacity != bpe.DefaultCacheCapacity):
			return nil, fmt.Errorf("the default cache is %+v", m.Cache)
		case (m.GetUnkToken() == nil) != (b.Unk == "") || b.Unk != "" && *m.GetUnkToken() != b.Unk:
			return nil, fmt.Errorf("GetUnkToken is not %q", b.Unk)
		case (m.GetContinuingSubwordPrfix() == nil) != (b.Prefix == "") || b.Prefix != "" && *m.GetContinuingSubwordPrfix() != b.Prefix:
			return nil, fmt.Errorf("GetContinuingSubwordPrfix is not %q", b.Prefix)
		}
		return m, nil
	}
	opt := func(s string) *string {
		if s == "" {
			return nil
		}
		return &s
	}
	ways := []way{
		{"bpe builder", func() (tokenizer.Model, error) { return build(bpe.NewBpeBuilder(), false) }},
		{"bpe builder (Files)", func() (tokenizer.Model, error) { return build(bpe.NewBpeBuilder(), true) }},
		{"bpe FromFiles", func() (tokenizer.Model, error) {
			d, err := bpe.DefaultBPE()
			if err != nil {
				return nil, err
			}
			return build(d.FromFiles(vf, mf), true)
		}},
		{"bpe.New", func() (tokenizer.Model, error) {
			return bpe.New(vocab(), lines, dropout, opt(b.Unk), opt(b.Prefix), opt(b.Suffix))
		}},
		{"config", func() (tokenizer.Model, error) {
			j := gen.J{"type": "BPE", "vocab": b.Vocab, "merges": gen.MergeLines(b)}
			for k, v := range map[string]string{"unk_token": b.Unk, "continuing_subword_prefix": b.Prefix, "end_of_word_suffix": b.Suffix} {
				if v != "" {
					j[k] = v
				} else if r.Intn(2) == 0 {
					j[k] = nil
				}
			}
			if r.Intn(2) == 0 {
				j["dropout"] = nil
			}
			return fromConfig(j)
		}},
	}
	if b.Unk == "" && b.Prefix == "" && b.Suffix == "" {
		ways = append(ways,
			way{"bpe.NewBPE", func() (tokenizer.Model, error) { return bpe.NewBPE(vocab(), gen.RealMerges(b)), nil }},
			way{"bpe.NewBpeFromFiles", func() (tokenizer.Model, error) { return bpe.NewBpeFromFiles(vf, mf) }})
	}
	tryWays(c, ways, b.Vocab, rf, nil, asked, what)
	if c.Failed() {
		return
	}
	// words and their ids, through the other entrances
	m, err := gen.RealBPE(b, cache, 0)
	if err != nil {
		c.Fail("make", "%v: %s", err, what)
		return
	}
	for _, w := range asked {
		want, ok := rf(w)
		if !ok || w == "" {
			continue
		}
		c.Detail("%+q: %s", w, what)
		for i := 0; i < 2; i++ {
			if g := toToks(m.TokenizeWithCache(w)); !reflect.DeepEqual(g, nz(want)) {
				c.Fail("with-cache", "TokenizeWithCache(%+q) = %+v want %+v: %s", w, g, want, what)
				return
			}
		}
		word := m.MergeWord(w)
		if g := toToks(m.WordToTokens(*word)); !reflect.DeepEqual(g, nz(want)) {
			c.Fail("word-to-tokens", "MergeWord(%+q) makes %+v want %+v: %s", w, g, want, what)
			return
		}
		ids, offs := word.GetChars(), word.GetOffsets()
		for i, t := range want {
			if len(ids) != len(want) || len(offs) != len(want) || ids[i] != t.Id || !eqInts(offs[i], []int{t.S, t.E}) {
				c.Fail("word", "the word of %+q has ids %v and offsets %v want %+v: %s", w, ids, offs, want, what)
				return
			}
		}
		c.Note("words taken apart")
	}
	// settings that make no model
	for _, d := range []float32{0, -.5, 1.5, 2} {
		bb := bpe.NewBpeBuilder()
		bb.VocabAndMerges(vocab(), gen.RealMerges(b))
		bb.Dropout(d)
		if _, err := bb.Build(); err == nil {
			c.Fail("dropout", "dropout %v makes a model", d)
			return
		}
		if _, err := bpe.New(vocab(), lines, &d, nil, opt(b.Prefix), nil); err == nil {
			c.Fail("dropout", "dropout %v makes a model", d)
			return
		}
	}
	for _, l := range []string{"a", "a b c", ""} {
		bad := append(append([]string{}, lines...), l)
		if _, err := bpe.CreateMerges(b.Vocab, bad, b.Prefix); err == nil {
			c.Fail("bad-merge", "the merge %q is taken", l)
			return
		}
	}
	if ms, err := bpe.CreateMerges(b.Vocab, lines, b.Prefix); err != nil || !reflect.DeepEqual(*ms, gen.RealMerges(b)) && len(lines) > 0 {
		c.Fail("merges", "CreateMerges gives %v %v want %v: %s", ms, err, gen.RealMerges(b), what)
		return
	}
	d, err := bpe.DefaultBPE()
	if err != nil {
		c.Fail("make", "%v", err)
		return
	}
	tryWays(c, []way{{"bpe.DefaultBPE", func() (tokenizer.Model, error) { return d, nil }}}, map[string]int{},
		(&ref.BPE{Vocab: map[string]int{}}).New(), nil, asked, "the default")
}

func constructUni(c *core.C, made, asked []string) {
	r := c.R
	u := gen.Uni(r, made, nil)
	if r.Intn(4) == 0 {
		u.Unk = -1
	}
	var words []string
	for _, w := range asked {
		if !strings.Contains(w, "<unk>") {
			words = append(words, w)
		}
	}
	what := fmt.Sprintf("unigram fuse=%v bytes=%v unk=%d %+q %.3f", u.Fuse, u.Bytes, u.Unk, u.Toks, u.Scores)
	entries := func() (v []unigram.TokenScore) {
		for i := range u.Toks {
			v = append(v, unigram.TokenScore{Token: u.Toks[i], Score: u.Scores[i]})
		}
		return
	}
	params := func(float bool) *util.Params {
		o := util.NewParams(nil)
		if u.Unk >= 0 {
			if float {
				o.Set("unk_id", float64(u.Unk))
			} else {
				o.Set("unk_id", u.Unk)
			}
		}
		if u.Bytes || r.Intn(2) == 0 {
			o.Set("byte_fallback", u.Bytes)
		}
		if !u.Fuse || r.Intn(2) == 0 {
			o.Set("fuse_unk", u.Fuse)
		}
		return o
	}
	ways := []way{
		{"unigram builder", func() (tokenizer.Model, error) {
			b := unigram.NewUnigramBuilder()
			fs := [][2]func(){{func() { b.Vocab(entries()) }, func() { b.Vocab([]unigram.TokenScore{{Token: "other", Score: -1}}) }}}
			if u.Unk >= 0 {
				fs = append(fs, [2]func(){func() { b.UnkID(u.Unk) }, func() { b.UnkID(u.Unk + 1) }})
			}
			if u.Bytes || r.Intn(2) == 0 {
				fs = append(fs, [2]func(){func() { b.BytesFallback(u.Bytes) }, func() { b.BytesFallback(!u.Bytes) }})
			}
			if !u.Fuse || r.Intn(2) == 0 {
				fs = append(fs, [2]func(){func() { b.FuseUnk(u.Fuse) }, func() { b.FuseUnk(!u.Fuse) }})
			}
			steps(r, fs...)
			return b.Build()
		}},
		{"unigram.New (int)", func() (tokenizer.Model, error) { return unigram.New(entries(), params(false)) }},
		{"unigram.New (float)", func() (tokenizer.Model, error) { return unigram.New(entries(), params(true)) }},
		{"config", func() (tokenizer.Model, error) {
			var v []any
			for i := range u.Toks {
				v = append(v, []any{u.Toks[i], u.Scores[i]})
			}
			j := gen.J{"type": "Unigram", "vocab": v}
			if u.Unk >= 0 {
				j["unk_id"] = u.Unk
			} else if r.Intn(2) == 0 {
				j["unk_id"] = nil
			}
			if u.Bytes || r.Intn(2) == 0 {
				j["byte_fallback"] = u.Bytes
			}
			if !u.Fuse || r.Intn(2) == 0 {
				j["fuse_unk"] = u.Fuse
			}
			return fromConfig(j)
		}},
	}
	if u.Unk < 0 && !u.Bytes && u.Fuse {
		ways = append(ways, way{"unigram.New (nil)", func() (tokenizer.Model, error) { return unigram.New(entries(), nil) }})
	}
	tryWays(c, ways, u.Ids(), u.New(), u, words, what)
	if c.Failed() {
		return
	}
	for _, k := range []int{len(u.Toks), len(u.Toks) + 9} {
		o := params(r.Intn(2) == 0)
		o.Set("unk_id", k)
		_, e1 := unigram.New(entries(), o)
		_, e2 := unigram.NewUnigramBuilder().Vocab(entries()).UnkID(k).Build()
		if e1 == nil || e2 == nil {
			c.Fail("unk-range", "the unknown id %d makes a model: %s", k, what)
			return
		}
	}
	o := params(false)
	o.Set("unk_id", "0")
	if _, err := unigram.New(entries(), o); err == nil {
		c.Fail("unk-type", "an unknown id that is text makes a model")
	}
}
