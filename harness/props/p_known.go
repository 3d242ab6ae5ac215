package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/pretrained"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "P32", Quick: 700, Thorough: 20000, TrimPath: true,
		Rule: "each case puts random vocabularies (and merges) where the ready-made tokenizers look for theirs, makes all five of them from a random working folder, and compares encodings and decodings of texts, word lists and pairs with the reference pipeline each is documented to be; non-trivial: at least two tokens",
		Run:  readyMade})
}

// sourceDir is where a function's source says it is: relative to the working folder, as the worker is built with
// -trimpath.
func sourceDir(f any) string {
	pc := reflect.ValueOf(f).Pointer()
	file, _ := runtime.FuncForPC(pc).FileLine(pc)
	if filepath.IsAbs(file) {
		panic("the worker is to be built with -trimpath: " + file)
	}
	return filepath.Dir(file)
}

type readyOne struct {
	name string
	make func() *tokenizer.Tokenizer
	ref  *ref.Pipe
	loss bool // encoding loses nothing but a leading space
}

func readyMade(c *core.C) {
	r := c.R
	home, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	defer os.Chdir(home)
	top, err := os.MkdirTemp("", "verif-ready-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(top)
	if top, err = filepath.EvalSymlinks(top); err != nil {
		panic(err)
	}
	for _, f := range []any{pretrained.BertBaseUncased, pretrained.BertLargeCasedWholeWordMaskingSquad, pretrained.GPT2, pretrained.RobertaBase, pretrained.RobertaBaseSquad2} {
		if err := os.MkdirAll(filepath.Join(top, sourceDir(f), "model"), 0o755); err != nil {
			panic(err)
		}
	}
	write := func(f any, name, text string) {
		if err := os.WriteFile(filepath.Join(top, sourceDir(f), "model", name), []byte(text), 0o644); err != nil {
			panic(err)
		}
	}
	var texts []string
	for i := 0; i < 5; i++ {
		texts = append(texts, gen.Any(r))
	}
	var all []readyOne
	bert := func(name, file string, lower bool, f func() *tokenizer.Tokenizer) {
		rp := &ref.Pipe{Norm: ref.Bert(true, lower, true, true), PTs: []ref.PT{ref.BertPT}, Dec: ref.WordPieceDec("##", true)}
		set := []string{"[UNK]", "[SEP]", "[CLS]"}
		if r.Intn(3) > 0 {
			set = append(set, "[MASK]")
		}
		rp.Added = ref.NewAddedVocab(nil, 0)
		for _, t := range texts {
			for _, p := range rp.Pieces(t) {
				rs := []rune(p.S.String())
				for i := 0; i < len(rs) && i < 100; i++ {
					if r.Intn(15) == 0 {
						continue
					}
					j := min(len(rs), i+1+r.Intn(5))
					for _, s := range []string{string(rs[i : i+1]), string(rs[i:j])} {
						if i > 0 {
							s = "##" + s
						}
						set = append(set, s)
					}
				}
			}
		}
		v := dense(r, set)
		lines := make([]string, len(v))
		for k, id := range v {
			lines[id] = k
		}
		write(f, file, strings.Join(lines, "\n")+"\n")
		rp.Model = ref.WordPiece(v, "[UNK]", "##", 100)
		rp.Added = ref.NewAddedVocab(v, len(v))
		for _, s := range []string{"[MASK]", "[SEP]", "[CLS]"} {
			rp.Added.Add([]ref.Added{{Content: s}}, true)
		}
		rp.Post = ref.BertPost("[SEP]", v["[SEP]"], "[CLS]", v["[CLS]"])
		all = append(all, readyOne{name: name, make: f, ref: rp})
	}
	bert("BertBaseUncased", "bert-base-uncased-vocab.txt", true, pretrained.BertBaseUncased)
	bert("BertLargeCasedWholeWordMaskingSquad", "bert-large-cased-whole-word-masking-finetuned-squad-vocab.txt", false, pretrained.BertLargeCasedWholeWordMaskingSquad)
	bpe := func(name, file string, prefix, trim, roberta bool, f any, mk func() *tokenizer.Tokenizer) {
		rp := &ref.Pipe{PTs: []ref.PT{ref.ByteLevelPT(prefix)}, Dec: ref.ByteLevelDec()}
		rp.Added = ref.NewAddedVocab(nil, 0)
		var pieces []string
		for _, t := range texts {
			for _, p := range rp.Pieces(t) {
				pieces = append(pieces, p.S.String())
			}
		}
		if len(pieces) == 0 {
			pieces = []string{"a"}
		}
		b := gen.BPE(r, pieces, gen.BPEOpts{ByteLevel: true, Merges: 40, CfgSafe: true})
		if roberta {
			// in the places the processor knows them at
			for k, id := range b.Vocab {
				b.Vocab[k] = id + 4
			}
			for i, s := range []string{"<s>", "<pad>", "</s>", "<unk>"} {
				b.Vocab[s] = i
			}
		}
		vb, err := json.Marshal(b.Vocab)
		if err != nil {
			panic(err)
		}
		write(f, file+"-vocab.json", string(vb))
		text := "#version: 0.2\n"
		for _, m := range b.Merges {
			text += m[0] + " " + m[1] + "\n"
		}
		write(f, file+"-merges.txt", text)
		rp.Model = b.New()
		rp.Added = ref.NewAddedVocab(b.Vocab, len(b.Vocab))
		rp.Post = ref.ByteLevelPost(trim, prefix)
		if roberta {
			for _, s := range []string{"<s>", "</s>"} {
				rp.Added.Add([]ref.Added{{Content: s}}, true)
			}
			rp.Post = ref.RobertaPost("</s>", 2, "<s>", 0, trim, prefix)
		}
		all = append(all, readyOne{name: fmt.Sprintf("%s(%v, %v)", name, prefix, trim), make: mk, ref: rp, loss: true})
	}
	for _, x := range []struct {
		name, file string
		roberta    bool
		f          func(bool, bool) *tokenizer.Tokenizer
	}{
		{"GPT2", "gpt2", false, pretrained.GPT2},
		{"RobertaBase", "roberta-base", true, pretrained.RobertaBase},
		{"RobertaBaseSquad2", "roberta-base-squad2", true, pretrained.RobertaBaseSquad2},
	} {
		prefix, trim := r.Intn(2) == 0, r.Intn(2) == 0
		bpe(x.name, x.file, prefix, trim, x.roberta, x.f, func() *tokenizer.Tokenizer { return x.f(prefix, trim) })
	}
	if err := os.Chdir(top); err != nil {
		panic(err)
	}
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	var ps []*gen.Pipe
	for _, x := range all {
		c.Detail("%s", x.name)
		tk := x.make()
		if tk == nil {
			c.Fail("make", "%s makes nothing", x.name)
			return
		}
		if at, err := os.Getwd(); err != nil || at != top {
			c.Fail("working-folder", "%s leaves the program in %q (%v), it was in %q", x.name, at, err, top)
			return
		}
		ps = append(ps, &gen.Pipe{Real: tk, Ref: x.ref, Texts: texts, Model: gen.Model{Name: x.name}})
		c.Note("tokenizers made: " + strings.SplitN(x.name, "(", 2)[0])
	}
	if err := os.Chdir(home); err != nil {
		panic(err)
	}
	for i, p := range ps {
		if got, want := p.Real.GetVocabSize(true), len(p.Ref.Added.Vocab)+len(p.Ref.Added.Map); got != want {
			c.Fail("size", "%s: %d entries with the added ones, want %d", all[i].name, got, want)
			return
		}
		for k := 0; k < 4; k++ {
			a, b := inputs(r, p, true)
			special := r.Intn(2) == 0
			e, want, ok := encodeBoth(c, p, a, b, special)
			if c.Failed() {
				return
			}
			if !ok {
				continue
			}
			skip := r.Intn(2) == 0
			text := p.Real.Decode(e.Ids, skip)
			if d := p.Ref.Decode(e.Ids, skip); text != d {
				c.Fail("decode", "decoding %s gives %+q want %+q: %s", ref.Show(want.T), text, d, p)
				return
			}
			c.Note("decodings")
			if all[i].loss && !a.IsPre && b == nil && !special && !strings.Contains(a.Text, "<s>") && !strings.Contains(a.Text, "</s>") {
				if t := strings.TrimPrefix(text, " "); t != strings.TrimPrefix(a.Text, " ") {
					c.Fail("round-trip", "%+q comes back as %+q: %s", a.Text, text, p)
					return
				}
				c.Note("texts that came back")
			}
		}
	}
}
