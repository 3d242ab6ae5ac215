package gen

import (
	"fmt"
	"hash/crc32"
	"math/rand"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/unigram"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/model/wordpiece"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
	"github.com/sugarme/tokenizer/processor"
	"github.com/sugarme/tokenizer/util"

	"verif/harness/ref"
)

// PT is a pre-tokenizer with its reference.
type PT struct {
	Name      string
	Real      tokenizer.PreTokenizer
	Refs      []ref.PT // applied one after the other
	JSON      J
	ByteLevel bool
	Prefix    bool // adds characters in front
}

func (p PT) Apply(ps []ref.Piece) []ref.Piece {
	for _, q := range p.Refs {
		ps = ref.Apply(q, ps)
	}
	return ps
}

var behaviors = []struct {
	n string
	r normalizer.SplitDelimiterBehavior
	f int
}{
	{"Removed", normalizer.RemovedBehavior, ref.Removed},
	{"Isolated", normalizer.IsolatedBehavior, ref.Isolated},
	{"MergedWithPrevious", normalizer.MergedWithPreviousBehavior, ref.MergedWithPrevious},
	{"MergedWithNext", normalizer.MergedWithNextBehavior, ref.MergedWithNext},
	{"Contiguous", normalizer.ContiguousBehavior, ref.Contiguous},
}

// ByteLevelPT makes the byte-level pre-tokenizer.
func ByteLevelPT(r *rand.Rand) PT {
	pre, trim := r.Intn(2) == 0, r.Intn(2) == 0
	bl := newByteLevel(r, pre, trim)
	return PT{fmt.Sprintf("bytelevel(prefix=%v)", pre), bl, []ref.PT{ref.ByteLevelPT(pre)},
		J{"type": "ByteLevel", "add_prefix_space": pre, "trim_offsets": trim}, true, pre}
}

// newByteLevel makes the component in one of the ways there are.
func newByteLevel(r *rand.Rand, pre, trim bool) *pretokenizer.ByteLevel {
	if r.Intn(2) == 0 {
		return &pretokenizer.ByteLevel{AddPrefixSpace: pre, TrimOffsets: trim}
	}
	bl := pretokenizer.NewByteLevel() // both are true
	if !pre || r.Intn(2) == 0 {
		bl.SetAddPrefixSpace(pre)
	}
	if !trim || r.Intn(2) == 0 {
		bl.SetTrimOffsets(trim)
	}
	return bl
}

// PreTokenizer makes one pre-tokenizer.
func PreTokenizer(r *rand.Rand, cfg bool, script bool) PT {
	one := func(name string, real tokenizer.PreTokenizer, rf ref.PT, j J) PT {
		return PT{Name: name, Real: real, Refs: []ref.PT{rf}, JSON: j}
	}
	switch k := r.Intn(12); k {
	case 0:
		return one("bert", pretokenizer.NewBertPreTokenizer(), ref.BertPT, J{"type": "BertPreTokenizer"})
	case 1:
		return one("whitespacesplit", pretokenizer.NewWhitespaceSplit(), ref.WhitespaceSplitPT, J{"type": "WhitespaceSplit"})
	case 2:
		return one("whitespace", Pick(r, pretokenizer.NewWhitespace, pretokenizer.DefaultWhitespace)(), ref.WhitespacePT, J{"type": "Whitespace"})
	case 3:
		b := Pick(r, behaviors...)
		real := pretokenizer.NewPunctuation(b.r)
		if b.f == ref.Isolated && r.Intn(2) == 0 {
			real = pretokenizer.DefaultPunctuation()
		}
		return one("punctuation "+b.n, real, ref.PunctuationPT(b.f), J{"type": "Punctuation", "behavior": b.n})
	case 4:
		ind := r.Intn(2) == 0
		real := pretokenizer.NewDigits(ind)
		if !ind && r.Intn(2) == 0 {
			real = pretokenizer.DefaultDigits()
		}
		return one(fmt.Sprintf("digits %v", ind), real, ref.DigitsPT(ind), J{"type": "Digits", "individual_digits": ind})
	case 5, 6:
		p := SplitPattern(r, cfg)
		b := Pick(r, behaviors...)
		inv := r.Intn(3) == 0
		rp := p.Ref
		if inv {
			rp = ref.InvPat(rp)
		}
		var j J
		if p.JSON != nil {
			j = J{"type": "Split", "pattern": p.JSON, "behavior": b.n, "invert": inv}
		}
		return one(fmt.Sprintf("split(%s %s invert=%v)", p.Name, b.n, inv), pretokenizer.NewSplit(p.Real, b.r, inv), ref.PatPT(rp, b.f), j)
	case 7:
		d := Pick(r, ' ', 'a', '-', '中', 'é', '\n')
		return one(fmt.Sprintf("delimiter %q", d), pretokenizer.NewCharDelimiterSplit(d), ref.DelimiterPT(d), J{"type": "Delimiter", "delimiter": string(d)})
	case 8, 9:
		rep := Pick(r, "▁", "▁", "_", "é")
		sc := r.Intn(3)
		var real *pretokenizer.Metaspace
		j := J{"type": "Metaspace", "replacement": rep}
		if sc != ref.First && r.Intn(2) == 0 {
			real = pretokenizer.NewMetaspace(rep, sc == ref.Always)
			j["add_prefix_space"] = sc == ref.Always
		} else {
			real = pretokenizer.NewMetaspaceWithScheme(rep, []pretokenizer.PrependScheme{pretokenizer.Never, pretokenizer.First, pretokenizer.Always}[sc])
			j["prepend_scheme"] = []string{"never", "first", "always"}[sc]
			j["add_prefix_space"] = r.Intn(2) == 0
		}
		switch {
		case rep == "▁" && sc == ref.Always && r.Intn(3) == 0:
			real = pretokenizer.DefaultMetaspace()
		case r.Intn(4) == 0:
			real = pretokenizer.NewMetaspaceWithScheme("x", []pretokenizer.PrependScheme{pretokenizer.Never, pretokenizer.First, pretokenizer.Always}[sc])
			real.SetReplacement(rep)
		}
		if real.GetReplacement() != rep {
			panic("a Metaspace with another replacement than it was given")
		}
		p := one(fmt.Sprintf("metaspace(%s %d)", rep, sc), real, ref.MetaspacePT(rep, sc), j)
		p.Prefix = sc != ref.Never
		return p
	case 10:
		if !script {
			return PreTokenizer(r, cfg, script)
		}
		return one("scripts", Pick(r, pretokenizer.NewUnicodeScript, pretokenizer.DefaultUnicodeScript)(), ref.ScriptPT, J{"type": "UnicodeScripts"})
	default:
		var reals []tokenizer.PreTokenizer
		out := PT{Name: "sequence("}
		var js []any
		ok := true
		for i := r.Intn(3); i >= 0; i-- {
			x := PreTokenizer(r, cfg, script)
			reals = append(reals, x.Real)
			out.Refs = append(out.Refs, x.Refs...)
			js = append(js, x.JSON)
			ok = ok && x.JSON != nil
			out.Name += x.Name + "; "
			out.Prefix = out.Prefix || x.Prefix
		}
		out.Name += ")"
		out.Real = pretokenizer.NewSequence(reals)
		if ok {
			out.JSON = J{"type": "Sequence", "pretokenizers": js}
		}
		return out
	}
}

// Model is a model with its reference.
type Model struct {
	Name  string
	Real  tokenizer.Model
	Ref   ref.Model
	Vocab map[string]int
	JSON  J
	BPE   *ref.BPE
	Uni   *ref.Uni
}

// ids numbers a set of tokens in a random order.
func ids(r *rand.Rand, toks map[string]bool) map[string]int {
	var ks []string
	for k := range toks {
		if k != "" {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	v := map[string]int{}
	if r.Intn(150) == 0 {
		// a vocabulary of the size real ones have: ids of more than 16 bits
		at := len(filler) - 300
		for i, f := range filler[:at] {
			v[f] = i
		}
		ks = append(ks, filler[at:]...)
		r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	}
	n := len(v)
	for i, k := range ks {
		v[k] = n + i
	}
	return v
}

// filler are entries no text has.
var filler = func() []string {
	var out []string
	for i := 0; i < 65600; i++ {
		out = append(out, fmt.Sprintf("\x01fill%d", i))
	}
	return out
}()

var specials = []string{"[UNK]", "[CLS]", "[SEP]", "[PAD]", "<s>", "</s>"}

// Copy clones a vocabulary.
func Copy(v map[string]int) map[string]int {
	o := make(map[string]int, len(v))
	for k, x := range v {
		o[k] = x
	}
	return o
}

// BPEOpts fixes what a BPE model is made of.
type BPEOpts struct {
	ByteLevel, Affixes bool
	Unk                string // "": the alphabet must cover everything
	Merges             int
	CfgSafe            bool // no spaces inside tokens
	Extra              []string
}

// BPE learns random merges from pieces.
func BPE(r *rand.Rand, pieces []string, o BPEOpts) *ref.BPE {
	b := &ref.BPE{Vocab: map[string]int{}, Unk: o.Unk}
	if o.Affixes {
		if r.Intn(2) == 0 {
			b.Prefix = Pick(r, "##", "@", "é")
		}
		if r.Intn(2) == 0 {
			b.Suffix = Pick(r, "</w>", "_", "ß")
		}
	}
	set := map[string]bool{}
	for _, t := range o.Extra {
		set[t] = true
	}
	if o.Unk != "" {
		set[o.Unk] = true
	}
	if o.ByteLevel {
		for _, c := range ref.ByteChar {
			set[string(c)] = true
		}
	}
	for _, p := range pieces {
		for i, c := range p {
			if o.CfgSafe && (c == ' ' || c == '\n' || c == '\r') {
				continue
			}
			if o.Unk != "" && r.Intn(25) == 0 {
				continue // stays unknown
			}
			v := string(c)
			if i > 0 {
				v = b.Prefix + v
			}
			if i+utf8.RuneLen(c) == len(p) {
				v += b.Suffix
			}
			set[v] = true
		}
	}
	// merges use temporary numbers; the final ones are given at the end
	tmp := func() {
		b.Vocab = map[string]int{}
		var ks []string
		for k := range set {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for i, k := range ks {
			b.Vocab[k] = i
		}
	}
	tmp()
	seen := map[[2]string]bool{}
	for tries := 0; len(b.Merges) < o.Merges && tries < 3*o.Merges && len(pieces) > 0; tries++ {
		p := Pick(r, pieces...)
		if len(p) > 200 {
			p = p[:strings.LastIndexFunc(p[:200], func(rune) bool { return true })]
		}
		toks, ok := b.New()(p)
		if !ok || len(toks) < 2 {
			continue
		}
		i := r.Intn(len(toks) - 1)
		m := [2]string{toks[i].Value, toks[i+1].Value}
		if seen[m] || m[0] == b.Unk || m[1] == b.Unk {
			continue
		}
		seen[m] = true
		b.Merges = append(b.Merges, m)
		set[m[0]+strings.TrimPrefix(m[1], b.Prefix)] = true
		tmp()
	}
	// ranks do not follow the order of creation
	if r.Intn(2) == 0 {
		r.Shuffle(len(b.Merges), func(i, j int) { b.Merges[i], b.Merges[j] = b.Merges[j], b.Merges[i] })
	}
	b.Vocab = ids(r, set)
	return b
}

// RealMerges are the merges of a BPE model as its API takes them.
func RealMerges(b *ref.BPE) bpe.Merges {
	m := bpe.Merges{}
	for i, p := range b.Merges {
		m[bpe.Pair{C1: b.Vocab[p[0]], C2: b.Vocab[p[1]]}] = bpe.PairVal{Rank: i, NewId: b.Vocab[p[0]+strings.TrimPrefix(p[1], b.Prefix)]}
	}
	return m
}

// RealBPE builds the real model. cache: -1 default.
func RealBPE(b *ref.BPE, cache int, dropout float32) (*bpe.BPE, error) {
	bb := bpe.NewBpeBuilder()
	bb.VocabAndMerges(model.Vocab(Copy(b.Vocab)), RealMerges(b))
	if b.Unk != "" {
		bb.UnkToken(b.Unk)
	}
	if b.Prefix != "" {
		bb.ContinuingSubwordPrefix(b.Prefix)
	}
	if b.Suffix != "" {
		bb.EndOfWordSuffix(b.Suffix)
	}
	if cache >= 0 {
		bb.CacheCapacity(cache)
	}
	if dropout > 0 {
		bb.Dropout(dropout)
	}
	return bb.Build()
}

// MergeLines are the merges as a configuration has them.
func MergeLines(b *ref.BPE) []any {
	out := []any{}
	for _, m := range b.Merges {
		out = append(out, m[0]+" "+m[1])
	}
	return out
}

// MakeBPE makes a BPE model for pieces.
func MakeBPE(r *rand.Rand, pieces []string, o BPEOpts) Model {
	b := BPE(r, pieces, o)
	real, err := RealBPE(b, Pick(r, -1, -1, 0, 1, 3), 0)
	if err != nil {
		panic(err)
	}
	j := J{"type": "BPE", "vocab": b.Vocab, "merges": MergeLines(b), "dropout": nil, "fuse_unk": false}
	if r.Intn(2) == 0 {
		var pairs []any
		for _, m := range b.Merges {
			pairs = append(pairs, []any{m[0], m[1]})
		}
		if pairs != nil {
			j["merges"] = pairs
		}
	}
	for k, v := range map[string]string{"unk_token": b.Unk, "continuing_subword_prefix": b.Prefix, "end_of_word_suffix": b.Suffix} {
		if v != "" {
			j[k] = v
		}
	}
	return Model{Name: fmt.Sprintf("bpe(%d merges, prefix %q, suffix %q, unk %q)", len(b.Merges), b.Prefix, b.Suffix, b.Unk), Real: real, Ref: b.New(), Vocab: b.Vocab, JSON: j, BPE: b}
}

// subs are random parts of pieces, by characters.
func subs(r *rand.Rand, pieces []string, n, maxLen int) []string {
	var out []string
	for i := 0; i < n && len(pieces) > 0; i++ {
		rs := []rune(Pick(r, pieces...))
		if len(rs) == 0 {
			continue
		}
		s := r.Intn(len(rs))
		if r.Intn(3) == 0 {
			s = 0
		}
		e := min(len(rs), s+1+r.Intn(maxLen))
		out = append(out, string(rs[s:e]))
	}
	return out
}

// MakeWordPiece makes a WordPiece model for pieces.
func MakeWordPiece(r *rand.Rand, pieces []string, extra []string) Model {
	unk, pre := Pick(r, "[UNK]", "[UNK]", "<unk>"), Pick(r, "##", "##", "@@", "é", "")
	maxc := Pick(r, 100, 100, 5, 12)
	if r.Intn(12) == 0 {
		maxc = 200 + r.Intn(800)
	}
	set := map[string]bool{unk: true}
	for _, t := range extra {
		set[t] = true
	}
	for _, p := range pieces {
		for i, c := range p {
			if r.Intn(20) == 0 {
				continue
			}
			if i == 0 {
				set[string(c)] = true
			} else {
				set[pre+string(c)] = true
			}
		}
	}
	for _, s := range subs(r, pieces, 60, 6) {
		if r.Intn(2) == 0 {
			s = pre + s
		}
		set[s] = true
	}
	return WordPieceFor(ids(r, set), unk, pre, maxc)
}

// WordPieceFor is the WordPiece model of a vocabulary.
func WordPieceFor(v map[string]int, unk, pre string, maxc int) Model {
	var real tokenizer.Model = wordpiece.NewWordPieceBuilder().Vocab((*model.Vocab)(ptr(model.Vocab(Copy(v))))).UnkToken(unk).ContinuingSubwordPrefix(pre).MaxInputCharsPerWord(maxc).Build()
	switch len(v) % 4 {
	case 0:
		// only what differs from the defaults
		b := wordpiece.NewWordPiece().Builder().Vocab((*model.Vocab)(ptr(model.Vocab(Copy(v)))))
		if unk != "[UNK]" {
			b = b.UnkToken(unk)
		}
		if pre != "##" {
			b = b.ContinuingSubwordPrefix(pre)
		}
		if maxc != 100 {
			b = b.MaxInputCharsPerWord(maxc)
		}
		real = b.Build()
	case 1:
		o := util.NewParams(nil)
		if unk != "[UNK]" {
			o.Set("unk_token", unk)
		}
		if pre != "##" {
			o.Set("continuing_subword_prefix", pre)
		}
		if maxc != 100 {
			o.Set("max_input_chars_per_word", maxc)
		}
		m, err := wordpiece.New(model.Vocab(Copy(v)), o)
		if err != nil {
			panic(err)
		}
		real = m
	}
	return Model{Name: fmt.Sprintf("wordpiece(%d, prefix %q, max %d, unk %s)", len(v), pre, maxc, unk), Real: real, Ref: ref.WordPiece(v, unk, pre, maxc), Vocab: v,
		JSON: J{"type": "WordPiece", "unk_token": unk, "continuing_subword_prefix": pre, "max_input_chars_per_word": maxc, "vocab": v}}
}

func ptr[T any](x T) *T { return &x }

// MakeWordLevel makes a WordLevel model for pieces.
func MakeWordLevel(r *rand.Rand, pieces []string, extra []string) Model {
	unk := Pick(r, "[UNK]", "<unk>")
	set := map[string]bool{unk: true}
	for _, t := range extra {
		set[t] = true
	}
	for _, p := range pieces {
		if r.Intn(5) > 0 {
			set[p] = true
		}
	}
	v := ids(r, set)
	real, err := wordlevel.New(Copy(v), unk)
	if err != nil {
		panic(err)
	}
	return Model{Name: fmt.Sprintf("wordlevel(%d)", len(v)), Real: real, Ref: ref.WordLevel(v, unk), Vocab: v,
		JSON: J{"type": "WordLevel", "unk_token": unk, "vocab": v}}
}

// Uni makes a unigram model for pieces.
func Uni(r *rand.Rand, pieces []string, extra []string) *ref.Uni {
	u := &ref.Uni{Unk: -1, Fuse: r.Intn(2) == 0, Bytes: r.Intn(3) == 0}
	seen := map[string]bool{}
	up, bulge, base := 0.0, 0.0, 0.0
	switch r.Intn(10) {
	case 0:
		up = Pick(r, 6.0, 12, 40) // scores of any sign
	case 1:
		bulge = 11 // so good that something unknown next to it is worth it
	case 2:
		base = Pick(r, 13.0, 30, 200) // all of them positive
	}
	add := func(t string) {
		if t == "" || seen[t] {
			return
		}
		seen[t] = true
		u.Toks = append(u.Toks, t)
		score := r.Float64()*up - r.Float64()*12 - .01
		if bulge > 0 {
			score = float64(r.Intn(2))*bulge - r.Float64()
		}
		score += base
		u.Scores = append(u.Scores, score)
	}
	for _, t := range extra {
		add(t)
	}
	add("<unk>")
	for _, p := range pieces {
		for _, c := range p {
			if r.Intn(15) > 0 && (bulge == 0 || r.Intn(2) == 0) {
				add(string(c))
			}
		}
	}
	for _, s := range subs(r, pieces, 80, Pick(r, 3, 6, 30)) {
		add(s)
	}
	if u.Bytes {
		keep := r.Intn(2) == 0
		for b := 0; b < 256; b++ {
			if keep || r.Intn(3) > 0 {
				add(fmt.Sprintf("<0x%02X>", b))
			}
		}
	}
	r.Shuffle(len(u.Toks), func(i, j int) {
		u.Toks[i], u.Toks[j] = u.Toks[j], u.Toks[i]
		u.Scores[i], u.Scores[j] = u.Scores[j], u.Scores[i]
	})
	if m := u.Min(); base > 0 && u.Fuse && m > 10 {
		// where an unknown character scores above zero, a fused unknown part may win over the
		// entry of the same text, and would be taken for it
		for i := range u.Scores {
			u.Scores[i] -= m - 9.5
		}
	}
	for i, t := range u.Toks {
		if t == "<unk>" {
			u.Unk = i
		}
	}
	return u
}

// RealUni builds the real model.
func RealUni(u *ref.Uni) (*unigram.Unigram, error) {
	var v []unigram.TokenScore
	for i := range u.Toks {
		v = append(v, unigram.TokenScore{Token: u.Toks[i], Score: u.Scores[i]})
	}
	if len(u.Toks)%3 == 0 {
		b := unigram.NewUnigramBuilder().Vocab(v)
		if u.Unk >= 0 {
			b = b.UnkID(u.Unk)
		}
		if u.Bytes {
			b = b.BytesFallback(true)
		}
		if !u.Fuse {
			b = b.FuseUnk(false)
		}
		return b.Build()
	}
	o := util.NewParams(nil)
	if u.Unk >= 0 {
		o.Set("unk_id", u.Unk)
	}
	if all := len(u.Toks)%3 == 1; all || u.Bytes {
		o.Set("byte_fallback", u.Bytes)
	} else if all || !u.Fuse {
		o.Set("fuse_unk", u.Fuse)
	}
	if !o.Has("fuse_unk") && !u.Fuse {
		o.Set("fuse_unk", false)
	}
	return unigram.New(v, o)
}

func MakeUni(r *rand.Rand, pieces []string, extra []string) Model {
	u := Uni(r, pieces, extra)
	if r.Intn(8) == 0 {
		u.Unk = -1
		u.Bytes = u.Bytes || r.Intn(2) == 0
	}
	return UniModel(u)
}

// UniModel is the model of a unigram vocabulary.
func UniModel(u *ref.Uni) Model {
	real, err := RealUni(u)
	if err != nil {
		panic(err)
	}
	var v []any
	for i := range u.Toks {
		v = append(v, []any{u.Toks[i], u.Scores[i]})
	}
	j := J{"type": "Unigram", "unk_id": u.Unk, "byte_fallback": u.Bytes, "fuse_unk": u.Fuse, "vocab": v}
	// what goes without saying is sometimes not said
	odd := len(u.Toks)%2 == 1
	if u.Unk < 0 {
		j["unk_id"] = nil
		if odd {
			delete(j, "unk_id")
		}
	}
	if odd && !u.Bytes {
		delete(j, "byte_fallback")
	}
	if odd && u.Fuse {
		delete(j, "fuse_unk")
	}
	return Model{Name: fmt.Sprintf("unigram(%d unk=%d fuse=%v bytes=%v)", len(v), u.Unk, u.Fuse, u.Bytes), Real: real, Ref: u.New(), Vocab: u.Ids(), Uni: u,
		JSON: j}
}

// Post is a post-processor with its reference.
type Post struct {
	Name string
	Real tokenizer.PostProcessor
	Ref  *ref.Post
	JSON J
}

// PostProcessor makes a post-processor out of the special tokens of a vocabulary.
func PostProcessor(r *rand.Rand, vocab map[string]int, byteLevel bool) Post {
	b := func() bool { return r.Intn(2) == 0 }
	tok := func(names ...string) (string, int) {
		n := Pick(r, names...)
		if id, ok := vocab[n]; ok {
			return n, id
		}
		return n, 1000 + r.Intn(50)
	}
	k := r.Intn(8)
	if byteLevel && b() {
		k = Pick(r, 2, 3, 4)
	}
	switch k {
	case 0, 1:
		st, si := tok("[SEP]", "</s>")
		ct, ci := tok("[CLS]", "<s>")
		return Post{"bert", processor.NewBertProcessing(processor.PostToken{Value: st, Id: si}, processor.PostToken{Value: ct, Id: ci}),
			ref.BertPost(st, si, ct, ci), J{"type": "BertProcessing", "sep": []any{st, si}, "cls": []any{ct, ci}}}
	case 2:
		st, si := tok("[SEP]", "</s>")
		ct, ci := tok("[CLS]", "<s>")
		trim, pre := b(), b()
		real := processor.NewRobertaProcessing(processor.PostToken{Value: st, Id: si}, processor.PostToken{Value: ct, Id: ci}, trim, pre)
		switch r.Intn(5) {
		case 0:
			// by default, the tokens of the model it is named after
			st, si, ct, ci = "</s>", 2, "<s>", 0
			real = processor.DefaultRobertaProcessing()
			if !trim || b() {
				real.TrimOffsets(trim)
			}
			if !pre || b() {
				real.AddPrefixSpace(pre)
			}
		case 1:
			real = processor.NewRobertaProcessing(processor.PostToken{Value: st, Id: si}, processor.PostToken{Value: ct, Id: ci}, b(), b())
			real.TrimOffsets(trim)
			real.AddPrefixSpace(pre)
		}
		return Post{fmt.Sprintf("roberta(trim=%v prefix=%v)", trim, pre), real,
			ref.RobertaPost(st, si, ct, ci, trim, pre), J{"type": "RobertaProcessing", "sep": []any{st, si}, "cls": []any{ct, ci}, "trim_offsets": trim, "add_prefix_space": pre}}
	case 3:
		trim, pre := b(), b()
		return Post{fmt.Sprintf("bytelevel(trim=%v prefix=%v)", trim, pre), processor.NewByteLevelProcessing(newByteLevel(r, pre, trim)),
			ref.ByteLevelPost(trim, pre), J{"type": "ByteLevel", "trim_offsets": trim, "add_prefix_space": pre}}
	case 4:
		trim, pre := b(), b()
		bl := Post{fmt.Sprintf("bytelevel(trim=%v prefix=%v)", trim, pre), processor.NewByteLevelProcessing(newByteLevel(r, pre, trim)),
			ref.ByteLevelPost(trim, pre), J{"type": "ByteLevel", "trim_offsets": trim, "add_prefix_space": pre}}
		x := PostProcessor(r, vocab, false)
		for strings.HasPrefix(x.Name, "sequence") {
			x = PostProcessor(r, vocab, false)
		}
		return Post{"sequence(" + bl.Name + "; " + x.Name + ")", processor.NewSequence([]tokenizer.PostProcessor{bl.Real, x.Real}), ref.SeqPost(bl.Ref, x.Ref),
			J{"type": "Sequence", "processors": []any{bl.JSON, x.JSON}}}
	default:
		return template(r, tok)
	}
}

func template(r *rand.Rand, tok func(...string) (string, int)) Post {
	// special tokens of one or several ids
	var sts []processor.SpecialToken
	toks := map[string][]ref.Tok{}
	js := J{}
	for _, n := range []string{"[CLS]", "[SEP]", "<s>"} {
		var is []int
		var ts []string
		t, i := tok(n)
		is, ts = append(is, i), append(ts, t)
		for r.Intn(4) == 0 {
			t, i := tok("[MASK]", "[SEP]", "extra")
			is, ts = append(is, i), append(ts, t)
		}
		sts = append(sts, *processor.NewSpecialToken(n, is, ts))
		for k := range is {
			toks[n] = append(toks[n], ref.Tok{Id: is[k], Value: ts[k]})
		}
		js[n] = J{"id": n, "ids": is, "tokens": ts}
	}
	make := func(seqs []string) (processor.Template, []ref.TPiece, []any, string) {
		var t processor.Template
		var p []ref.TPiece
		var j []any
		name := ""
		spec := func() {
			for r.Intn(5) < 2 {
				n, ty := Pick(r, "[CLS]", "[SEP]", "<s>"), r.Intn(3)
				t = append(t, processor.NewSpecialTokenPiece(n, ty))
				p = append(p, ref.TPiece{Seq: -1, Toks: toks[n], Type: ty})
				j = append(j, J{"SpecialToken": J{"id": n, "type_id": ty}})
				name += fmt.Sprintf("%s:%d ", n, ty)
			}
		}
		spec()
		for _, s := range seqs {
			ty := r.Intn(3)
			t = append(t, processor.NewSequencePiece(s, ty))
			p = append(p, ref.TPiece{Seq: int(s[0] - 'A'), Type: ty})
			j = append(j, J{"Sequence": J{"id": s, "type_id": ty}})
			name += fmt.Sprintf("$%s:%d ", s, ty)
			spec()
		}
		return t, p, j, name
	}
	st, sp, sj, sn := make([]string{"A"})
	order := []string{"A", "B"}
	if r.Intn(5) == 0 {
		order = []string{"B", "A"}
	}
	pt, pp, pj, pn := make(order)
	specials := processor.NewTokensFrom(sts)
	if r.Intn(3) == 0 {
		m := map[string]processor.SpecialToken{}
		for _, s := range sts {
			m[s.Id] = s
		}
		specials = processor.NewTokensFromMap(m)
	}
	return Post{"template(" + sn + "| " + pn + ")", processor.NewTemplateProcessing(st, pt, specials), ref.TemplatePost(sp, pp),
		J{"type": "TemplateProcessing", "single": sj, "pair": pj, "special_tokens": js}}
}

// Pipe is a whole tokenizer with its reference.
type Pipe struct {
	Norm  *Norm
	PT    *PT
	Model Model
	Short bool // no long inputs: they are encoded many times
	Added []AddedCall
	Post  *Post
	Trunc *ref.Trunc
	Pad   *ref.Pad
	Dec   *Dec
	Texts []string // texts it was made for

	Real *tokenizer.Tokenizer
	Ref  *ref.Pipe
	JSON J // nil: has no configuration
}

// AddedCall is one call that adds tokens.
type AddedCall struct {
	Special bool
	Toks    []ref.Added
}

func (p *Pipe) String() string {
	var b strings.Builder
	if p.Norm != nil {
		fmt.Fprintf(&b, "norm=%s ", p.Norm.Name)
	}
	if p.PT != nil {
		fmt.Fprintf(&b, "pre=%s ", p.PT.Name)
	}
	fmt.Fprintf(&b, "model=%s ", p.Model.Name)
	if p.Post != nil {
		fmt.Fprintf(&b, "post=%s ", p.Post.Name)
	}
	if p.Dec != nil {
		fmt.Fprintf(&b, "dec=%s ", p.Dec.Name)
	}
	if p.Trunc != nil {
		fmt.Fprintf(&b, "trunc=%+v ", *p.Trunc)
	}
	if p.Pad != nil {
		fmt.Fprintf(&b, "pad=%+v ", *p.Pad)
	}
	for _, a := range p.Added {
		fmt.Fprintf(&b, "added(special=%v)=%+v ", a.Special, a.Toks)
	}
	return b.String()
}

// Opts restricts what a pipe is made of.
type Opts struct {
	Cfg       bool // everything must have a configuration
	NoNorm    bool
	NoAdded   bool
	NoPost    bool
	Trunc     bool
	Pad       bool
	Script    bool // may use the script pre-tokenizer (which logs a lot)
	ByteLevel bool // byte-level BPE only
	Model     string
	Dec       bool   // may have a decoder
	Must      string // parts it has for sure: norm pt added post trunc pad
}

// RealAdded is an added token as the API takes it.
func RealAdded(a ref.Added, special bool) tokenizer.AddedToken {
	switch h := int(crc32.ChecksumIEEE([]byte(a.Content))); {
	case h%4 == 0:
		// only what differs from the defaults
		var opts []tokenizer.ATOption
		for _, x := range []struct {
			given bool
			o     tokenizer.ATOption
		}{{a.Single, tokenizer.WithSingleWord(true)}, {a.LStrip, tokenizer.WithLStrip(true)}, {a.RStrip, tokenizer.WithRStrip(true)}, {a.IsNorm == special, tokenizer.WithNormalized(a.IsNorm)}} {
			if x.given {
				opts = append(opts, x.o)
			}
		}
		return tokenizer.NewAddedToken(a.Content, special, opts...)
	case h%4 == 1:
		t := tokenizer.NewAddedToken(a.Content, special)
		u := t.SetSingleWord(a.Single).SetLStrip(a.LStrip).SetRStrip(a.RStrip).SetNormalized(a.IsNorm)
		if t != tokenizer.NewAddedToken(a.Content, special) {
			panic("setting a property of a token changed the token it was made from")
		}
		return u
	case h%4 == 2 && !special && a.IsNorm:
		t := tokenizer.DefaultAddedToken()
		t.Content, t.SingleWord, t.LStrip, t.RStrip = a.Content, a.Single, a.LStrip, a.RStrip
		return t
	}
	return tokenizer.NewAddedToken(a.Content, special, tokenizer.WithSingleWord(a.Single), tokenizer.WithLStrip(a.LStrip), tokenizer.WithRStrip(a.RStrip), tokenizer.WithNormalized(a.IsNorm))
}

// AddedTokens makes added tokens out of parts of texts.
func AddedTokens(r *rand.Rand, texts []string, least int) []AddedCall {
	var out []AddedCall
	for k := max(r.Intn(3), least); k > 0; k-- {
		c := AddedCall{Special: r.Intn(2) == 0}
		n := r.Intn(4)
		if r.Intn(80) == 0 {
			n = 100 + r.Intn(900)
		}
		for i := n; i >= 0; i-- {
			content := Pick(r, lookout...)
			if n >= 100 {
				content = fmt.Sprintf("<%s%d>", Pick(r, "extra_id_", "unused", "é", ""), i)
				if r.Intn(4) == 0 {
					content = Word(r) + Pick(r, "", "s", "1")
				}
			}
			switch r.Intn(4) + n/100*4 {
			case 0:
				if s := subs(r, texts, 1, 5); len(s) > 0 {
					content = strings.TrimFunc(s[0], func(c rune) bool { return ref.WideSpace(c) || c < ' ' })
				}
			case 1:
				content = Pick(r, words...)
			}
			if content == "" {
				continue
			}
			c.Toks = append(c.Toks, ref.Added{Content: content, Single: r.Intn(4) == 0, LStrip: r.Intn(4) == 0, RStrip: r.Intn(4) == 0, IsNorm: r.Intn(2) == 0})
		}
		if len(c.Toks) > 0 {
			out = append(out, c)
		}
	}
	return out
}

// AddTo registers added tokens on both sides.
func AddTo(tk *tokenizer.Tokenizer, av *ref.AddedVocab, c AddedCall) (got, want int) {
	var real []tokenizer.AddedToken
	for _, t := range c.Toks {
		real = append(real, RealAdded(t, c.Special))
	}
	if c.Special {
		got = tk.AddSpecialTokens(real)
	} else {
		got = tk.AddTokens(real)
	}
	return got, av.Add(c.Toks, c.Special)
}

// Make makes a whole tokenizer.
func Make(r *rand.Rand, o Opts) *Pipe {
	p := &Pipe{}
	for i := 0; i < 5; i++ {
		p.Texts = append(p.Texts, Any(r))
	}
	must := func(part string) bool { return strings.Contains(o.Must, part) }
	if !o.NoNorm && (must("norm") || Chance(r, .65)) {
		n := Normalizer(r, o.Cfg)
		for o.Model == "unigram" && strings.Contains(n.Name, "<unk>") {
			n = Normalizer(r, o.Cfg)
		}
		p.Norm = &n
	}
	byteLevel := o.ByteLevel || o.Model == "" && !must("pt") && Chance(r, .25)
	switch {
	case byteLevel:
		x := ByteLevelPT(r)
		p.PT = &x
	case must("pt") || Chance(r, .85):
		x := PreTokenizer(r, o.Cfg, o.Script)
		p.PT = &x
	}
	p.Added = nil
	if !o.NoAdded {
		least := 0
		if must("added") {
			least = 1
		}
		p.Added = AddedTokens(r, p.Texts, least)
		for _, call := range p.Added {
			for i, a := range call.Toks {
				n := a.Content
				if a.IsNorm && p.Norm != nil {
					n = p.Norm.Ref(ref.New(n)).String()
				}
				if strings.TrimFunc(n, ref.WideSpace) != n {
					call.Toks[i].LStrip, call.Toks[i].RStrip = false, false // which whitespace is its own?
				}
			}
		}
	}
	p.Ref = &ref.Pipe{}
	if p.Norm != nil {
		p.Ref.Norm = p.Norm.Ref
	}
	// the pieces the model will see, without added tokens
	tmp := ref.NewAddedVocab(nil, 0)
	var pieces []string
	for _, t := range p.Texts {
		ps := tmp.Pieces(t, p.Ref.Norm)
		if p.PT != nil {
			ps = p.PT.Apply(ps)
		}
		for _, q := range ps {
			pieces = append(pieces, q.S.String())
		}
	}
	if len(pieces) == 0 {
		pieces = []string{"a", "ab"}
	}
	kind := o.Model
	if kind == "" {
		kind = Pick(r, "bpe", "wordpiece", "wordlevel", "unigram", "bpe")
	}
	if kind == "unigram" && p.Norm != nil && strings.Contains(p.Norm.Name, "<unk>") {
		kind = "wordpiece" // texts must not have what reads as unknown
	}
	switch {
	case byteLevel:
		p.Model = MakeBPE(r, pieces, BPEOpts{ByteLevel: true, Merges: 40, Extra: specials, CfgSafe: o.Cfg})
	case kind == "bpe":
		p.Model = MakeBPE(r, pieces, BPEOpts{Affixes: true, Unk: Pick(r, "[UNK]", "<unk>"), Merges: 40, Extra: specials, CfgSafe: o.Cfg})
	case kind == "wordpiece":
		p.Model = MakeWordPiece(r, pieces, specials)
	case kind == "wordlevel":
		p.Model = MakeWordLevel(r, pieces, specials)
	default:
		p.Model = MakeUni(r, pieces, specials)
	}
	if !o.NoPost && (must("post") || Chance(r, .7)) {
		x := PostProcessor(r, p.Model.Vocab, byteLevel)
		p.Post = &x
	}
	if must("trunc") || o.Trunc && Chance(r, .6) {
		m := 1 + r.Intn(14)
		p.Trunc = &ref.Trunc{Max: m, Stride: r.Intn(m), Strategy: Pick(r, ref.LongestFirst, ref.LongestFirst, ref.OnlyFirst, ref.OnlySecond)}
		if r.Intn(15) == 0 {
			p.Trunc.Max = 0
		}
	}
	if must("pad") || o.Pad && Chance(r, .6) {
		p.Pad = &ref.Pad{Fixed: Pick(r, -1, 0, 5, 12, 40), Left: r.Intn(2) == 0, Id: r.Intn(5), TypeId: r.Intn(3), Tok: Pick(r, "[PAD]", "<pad>", "<pad>", "")}
	}
	if o.Dec && Chance(r, .75) {
		d := Decoder(r, o.Cfg)
		p.Dec = &d
	}
	p.build()
	return p
}

// RealTrunc and RealPad are the parameters as the API takes them.
func RealTrunc(t *ref.Trunc) *tokenizer.TruncationParams {
	return &tokenizer.TruncationParams{MaxLength: t.Max, Stride: t.Stride, Strategy: []tokenizer.TruncationStrategy{tokenizer.LongestFirst, tokenizer.OnlyFirst, tokenizer.OnlySecond}[t.Strategy]}
}

func RealPad(p *ref.Pad) *tokenizer.PaddingParams {
	s := tokenizer.NewPaddingStrategy(tokenizer.WithBatchLongest())
	if p.Fixed >= 0 {
		s = tokenizer.NewPaddingStrategy(tokenizer.WithFixed(p.Fixed))
	}
	d := tokenizer.Right
	if p.Left {
		d = tokenizer.Left
	}
	return &tokenizer.PaddingParams{Strategy: *s, Direction: d, PadId: p.Id, PadTypeId: p.TypeId, PadToken: p.Tok}
}

func (p *Pipe) build() {
	r := p.Ref
	tk := tokenizer.NewTokenizer(p.Model.Real)
	p.Real = tk
	j := J{"version": "1.0", "model": p.Model.JSON}
	ok := p.Model.JSON != nil
	if p.Norm != nil {
		tk.WithNormalizer(p.Norm.Real)
		j["normalizer"] = p.Norm.JSON
		ok = ok && p.Norm.JSON != nil
	}
	if p.PT != nil {
		tk.WithPreTokenizer(p.PT.Real)
		r.PTs = p.PT.Refs
		j["pre_tokenizer"] = p.PT.JSON
		ok = ok && p.PT.JSON != nil
	}
	r.Model = p.Model.Ref
	if p.Post != nil {
		tk.WithPostProcessor(p.Post.Real)
		r.Post = p.Post.Ref
		j["post_processor"] = p.Post.JSON
	}
	if p.Dec != nil {
		tk.WithDecoder(p.Dec.Real)
		r.Dec = p.Dec.Ref
		j["decoder"] = p.Dec.JSON
		ok = ok && p.Dec.JSON != nil
	}
	r.Added = ref.NewAddedVocab(p.Model.Vocab, len(p.Model.Vocab))
	var js []any
	for _, c := range p.Added {
		AddTo(tk, r.Added, c)
		for _, t := range c.Toks {
			id, _ := r.Added.Id(t.Content)
			js = append(js, J{"id": id, "content": t.Content, "single_word": t.Single, "lstrip": t.LStrip, "rstrip": t.RStrip, "normalized": t.IsNorm, "special": c.Special})
		}
	}
	if js != nil {
		j["added_tokens"] = js
	}
	if p.Trunc != nil {
		tk.WithTruncation(RealTrunc(p.Trunc))
		r.Trunc = p.Trunc
		j["truncation"] = J{"max_length": p.Trunc.Max, "stride": p.Trunc.Stride, "strategy": []string{"LongestFirst", "OnlyFirst", "OnlySecond"}[p.Trunc.Strategy], "direction": "Right"}
	}
	if p.Pad != nil {
		tk.WithPadding(RealPad(p.Pad))
		r.Pad = p.Pad
		var st any = "BatchLongest"
		if p.Pad.Fixed >= 0 {
			st = J{"Fixed": p.Pad.Fixed}
		}
		d := "Right"
		if p.Pad.Left {
			d = "Left"
		}
		j["padding"] = J{"strategy": st, "direction": d, "pad_id": p.Pad.Id, "pad_type_id": p.Pad.TypeId, "pad_token": p.Pad.Tok}
	}
	if ok {
		p.JSON = j
	}
}

// RealInput is an input as the API takes it.
func RealInput(in ref.Input) tokenizer.InputSequence {
	if in.IsPre {
		return tokenizer.NewInputSequence(in.Words)
	}
	return tokenizer.NewInputSequence(in.Text)
}

// RealEncodeInput is a single or dual input.
func RealEncodeInput(a ref.Input, b *ref.Input) tokenizer.EncodeInput {
	if b == nil {
		return tokenizer.NewSingleEncodeInput(RealInput(a))
	}
	return tokenizer.NewDualEncodeInput(RealInput(a), RealInput(*b))
}

// InputFor makes an input for a pipe.
func InputFor(r *rand.Rand, p *Pipe) ref.Input {
	text := func() string {
		var extra []string
		for _, c := range p.Added {
			for _, t := range c.Toks {
				extra = append(extra, t.Content)
			}
		}
		if p.Trunc == nil && !p.Short && r.Intn(200) == 0 {
			return Long(r, extra...)
		}
		switch r.Intn(3) {
		case 0:
			return Pick(r, p.Texts...)
		case 1:
			t := Pick(r, p.Texts...)
			rs := []rune(t)
			if len(rs) > 0 && len(extra) > 0 {
				i := r.Intn(len(rs) + 1)
				t = string(rs[:i]) + Pick(r, "", " ", "  ") + Pick(r, extra...) + Pick(r, "", " ", "\u3000") + string(rs[i:])
			}
			return t
		}
		return Any(r, extra...)
	}
	if r.Intn(5) == 0 {
		in := ref.Input{IsPre: true, Words: []string{}}
		ws := strings.Fields(text())
		if r.Intn(4) == 0 {
			ws = append(ws, "", text())
		}
		most := 12
		if p.Trunc == nil && !p.Short && r.Intn(30) == 0 {
			most = 300
			for len(ws) < most {
				ws = append(ws, strings.Fields(text()+" a")...)
			}
		}
		for _, w := range ws {
			if len(in.Words) < most {
				in.Words = append(in.Words, w)
			}
		}
		return in
	}
	return ref.Input{Text: text()}
}
