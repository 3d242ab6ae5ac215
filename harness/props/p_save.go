package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/model/wordpiece"
	"github.com/sugarme/tokenizer/pretrained"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "P19", Quick: 1500, Thorough: 60000,
		Rule: "each case makes a random model, saves it (into a folder that may hold older, larger files of the same names), loads it back and compares vocabulary, both lookups and the tokens of words with the model before; checks which files appeared or changed in the folder and around it; saves the loaded model again and compares the files; then saves into broken places (missing folder, folder in the way, full device) and loads broken files (missing, cut off, folder, wrong types), which must give errors; non-trivial: at least five entries",
		Run:  saveLoad})
}

// tree is what files a folder holds.
func tree(d string) map[string]string {
	out := map[string]string{}
	filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		k, _ := filepath.Rel(d, p)
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			out[k] = string(b)
		} else {
			out[k] = fi.Mode().Type().String()
		}
		return nil
	})
	return out
}

func diffTree(a, b map[string]string) (changed []string) {
	for k, x := range b {
		if y, ok := a[k]; !ok || y != x {
			changed = append(changed, k)
		}
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			changed = append(changed, "-"+k)
		}
	}
	sort.Strings(changed)
	return
}

// saved is a kind of model on its way to files and back.
type saved struct {
	name  string
	real  tokenizer.Model
	vocab map[string]int
	ref   ref.Model
	files []string // that it saves
	load  func(dir, pre string) (tokenizer.Model, error)
	odd   func(w string) bool // words that are out of its domain
}

func lineSafe(ps []string) (out []string) {
	for _, p := range ps {
		p = strings.Map(func(c rune) rune {
			if c == '\n' || c == '\r' {
				return -1
			}
			return c
		}, p)
		if p != "" && !strings.Contains(p, "#version") {
			out = append(out, p)
		}
	}
	return append(out, "ab")
}

func makeSaved(r *rand.Rand, made []string) (s saved) {
	switch r.Intn(4) {
	case 0:
		o := gen.BPEOpts{Affixes: true, Unk: gen.Pick(r, "[UNK]", "<unk>"), Merges: gen.Pick(r, 0, 3, 40), CfgSafe: true}
		if r.Intn(8) == 0 {
			// a line that reads like the header, and is none
			made, o.Merges = []string{"x#version", "a#version"}, 60
		}
		b := gen.BPE(r, made, o)
		real, err := gen.RealBPE(b, -1, 0)
		if err != nil {
			panic(err)
		}
		s = saved{name: fmt.Sprintf("bpe prefix=%q suffix=%q", b.Prefix, b.Suffix), real: *real, vocab: b.Vocab, ref: b.New(), files: []string{"vocab.json", "merges.txt"}}
		viaBuilder := b.Prefix != "" || b.Suffix != "" || r.Intn(2) == 0
		s.load = func(dir, pre string) (tokenizer.Model, error) {
			v, m := filepath.Join(dir, pre+"vocab.json"), filepath.Join(dir, pre+"merges.txt")
			if !viaBuilder {
				x, err := bpe.NewBpeFromFiles(v, m)
				if err != nil {
					return nil, err
				}
				x.UnkToken = &b.Unk
				return *x, nil
			}
			bb := bpe.NewBpeBuilder()
			bb.Files(v, m)
			bb.UnkToken(b.Unk)
			if b.Prefix != "" {
				bb.ContinuingSubwordPrefix(b.Prefix)
			}
			if b.Suffix != "" {
				bb.EndOfWordSuffix(b.Suffix)
			}
			x, err := bb.Build()
			if err != nil {
				return nil, err
			}
			return *x, nil
		}
	case 1:
		unk, max := gen.Pick(r, "[UNK]", "<unk>"), gen.Pick(r, 100, 100, 5)
		pre := gen.Pick(r, "##", "##", "@@")
		set := []string{unk}
		for _, p := range made {
			rs := []rune(p)
			if len(rs) > 100 {
				rs = rs[:100]
			}
			for i := range rs {
				j := min(len(rs), i+1+r.Intn(4))
				set = append(set, string(rs[i:i+1]), pre+string(rs[i:i+1]), string(rs[i:j]), pre+string(rs[i:j]))
			}
		}
		v := dense(r, set)
		m := gen.WordPieceFor(v, unk, pre, max)
		s = saved{name: "wordpiece " + m.Name, real: m.Real, vocab: v, ref: m.Ref, files: []string{"vocab.txt"}}
		direct := pre == "##" && r.Intn(2) == 0
		s.load = func(dir, p string) (tokenizer.Model, error) {
			f := filepath.Join(dir, p+"vocab.txt")
			if direct {
				return wordpiece.NewWordPieceFromFile(f, unk, max)
			}
			// the builder ends the program where it cannot read
			x, err := wordpiece.NewWordPieceFromFile(f, unk)
			if err != nil {
				return nil, err
			}
			_ = x
			return wordpiece.NewWordPieceBuilderFromFile(f).UnkToken(unk).ContinuingSubwordPrefix(pre).MaxInputCharsPerWord(max).Build(), nil
		}
	case 2:
		unk := gen.Pick(r, "[UNK]", "<unk>", "missing")
		set := append([]string{}, made...)
		if unk != "missing" {
			set = append(set, unk)
		}
		v := dense(r, set)
		real, err := wordlevel.New(gen.Copy(v), unk)
		if err != nil {
			panic(err)
		}
		s = saved{name: "wordlevel " + unk, real: real, vocab: v, ref: ref.WordLevel(v, unk), files: []string{"vocab.txt"}}
		s.load = func(dir, p string) (tokenizer.Model, error) {
			x, err := wordlevel.NewWorldLevelFromFile(filepath.Join(dir, p+"vocab.txt"), unk)
			if err != nil {
				return nil, err
			}
			return x, nil
		}
	default:
		u := gen.Uni(r, made, nil)
		if r.Intn(6) == 0 {
			u.Unk = -1
		}
		real, err := gen.RealUni(u)
		if err != nil {
			panic(err)
		}
		s = saved{name: fmt.Sprintf("unigram unk=%d fuse=%v bytes=%v", u.Unk, u.Fuse, u.Bytes), real: real, vocab: u.Ids(), files: []string{"vocab.json"}}
		s.odd = func(w string) bool { return strings.Contains(w, "<unk>") }
		s.load = func(dir, p string) (tokenizer.Model, error) {
			b, err := os.ReadFile(filepath.Join(dir, p+"vocab.json"))
			if err != nil {
				return nil, err
			}
			var j map[string]any
			if err := json.Unmarshal(b, &j); err != nil {
				return nil, err
			}
			return pretrained.CreateModel(&tokenizer.Config{Model: j})
		}
	}
	return s
}

// dense numbers tokens from 0 on, in any order.
func dense(r *rand.Rand, toks []string) map[string]int {
	v := map[string]int{}
	for _, i := range r.Perm(len(toks)) {
		if _, ok := v[toks[i]]; !ok && toks[i] != "" {
			v[toks[i]] = len(v)
		}
	}
	return v
}

func saveLoad(c *core.C) {
	r := c.R
	made, asked := wordsFor(r)
	made, asked = lineSafe(made), lineSafe(asked)
	s := makeSaved(r, made)
	uni := strings.HasPrefix(s.name, "unigram")
	root, err := os.MkdirTemp(os.Getenv("VDRV_SCRATCH"), "save")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(root)
	dir := filepath.Join(root, "models")
	os.Mkdir(dir, 0o755)
	os.WriteFile(filepath.Join(root, "other"), []byte("other"), 0o644)
	os.WriteFile(filepath.Join(dir, "bystander.txt"), []byte("still here"), 0o644)
	var name []string
	pre := ""
	if n := gen.Pick(r, "", "", "x", "my-model", "é 1"); n != "" {
		name, pre = []string{n}, n+"-"
	} else if uni {
		pre = "tokenizer-"
	}
	desc := fmt.Sprintf("%s with %d entries, name %q", s.name, len(s.vocab), name)
	if r.Intn(3) == 0 {
		desc += " over older files"
		for _, f := range s.files {
			os.WriteFile(filepath.Join(dir, pre+f), bytes.Repeat([]byte("old stuff\n"), 20000), 0o644)
		}
	}
	c.Detail("%s", desc)
	before := tree(root)
	if err := s.real.Save(dir, name...); err != nil {
		c.Fail("save", "%s: %v", desc, err)
		return
	}
	after := tree(root)
	var want []string
	for _, f := range s.files {
		want = append(want, "models/"+pre+f)
	}
	sort.Strings(want)
	ch := diffTree(before, after)
	if !sameStrings(ch, want) {
		c.Fail("files", "%s: saving changed %q, not %q", desc, ch, want)
		return
	}
	c.Note("models saved")
	m, err := s.load(dir, pre)
	if err != nil {
		c.Fail("load", "%s: %v", desc, err)
		return
	}
	if d := diffTree(after, tree(root)); d != nil {
		c.Fail("load-writes", "%s: loading changed %q", desc, d)
		return
	}
	compare := func(m tokenizer.Model) bool {
		if d := diffVocab(m.GetVocab(), s.vocab); d != "" {
			c.Fail("vocab", "%s: %s", desc, d)
			return false
		}
		if m.GetVocabSize() != len(s.vocab) {
			c.Fail("size", "%s: size %d", desc, m.GetVocabSize())
			return false
		}
		for t, id := range s.vocab {
			i, ok := m.TokenToId(t)
			n, ok2 := m.IdToToken(id)
			if !ok || !ok2 || i != id || n != t {
				c.Fail("lookup", "%s: %+q has id %d %v, not %d, which names %+q %v", desc, t, i, ok, id, n, ok2)
				return false
			}
		}
		for _, w := range asked {
			if s.odd != nil && s.odd(w) {
				continue
			}
			a, err1 := s.real.Tokenize(w)
			b, err2 := m.Tokenize(w)
			c.Eval(desc+fmt.Sprintf(" on %+q", w), len(s.vocab) >= 5)
			if (err1 == nil) != (err2 == nil) || fmt.Sprintf("%+q", toToks(a)) != fmt.Sprintf("%+q", toToks(b)) {
				c.Fail("tokens", "%s: %+q gives %+v %v, before saving %+v %v", desc, w, b, err2, a, err1)
				return false
			}
			if s.ref != nil {
				want, ok := s.ref(w)
				if ok != (err2 == nil) || ok && fmt.Sprintf("%+q", want) != fmt.Sprintf("%+q", toToks(b)) {
					c.Fail("tokens", "%s: %+q gives %+v %v, not %+v", desc, w, b, err2, want)
					return false
				}
			}
			c.Note("words compared")
		}
		return true
	}
	if !compare(m) {
		return
	}
	// once more, next to it
	again := filepath.Join(root, "again")
	os.Mkdir(again, 0o755)
	if err := m.Save(again, name...); err != nil {
		c.Fail("save", "%s: second save %v", desc, err)
		return
	}
	for _, f := range s.files {
		a, _ := os.ReadFile(filepath.Join(dir, pre+f))
		b, _ := os.ReadFile(filepath.Join(again, pre+f))
		if !bytes.Equal(a, b) {
			c.Fail("again", "%s: %s differs when the loaded model is saved", desc, f)
			return
		}
	}
	faults(c, s, root, dir, pre, name, desc, uni)
}

// faults saves into broken places and loads broken files.
func faults(c *core.C, s saved, root, dir, pre string, name []string, desc string, uni bool) {
	r := c.R
	for i := 0; i < 2; i++ {
		bad := filepath.Join(root, fmt.Sprint("bad", i))
		kind := gen.Pick(r, "missing folder", "file as folder", "folder in the way", "full device")
		f := filepath.Join(bad, pre+gen.Pick(r, s.files...))
		switch kind {
		case "missing folder":
			if uni {
				continue // which makes it
			}
			bad = filepath.Join(bad, "not", "there")
		case "file as folder":
			os.WriteFile(bad, []byte("a file"), 0o644)
		case "folder in the way":
			os.MkdirAll(f, 0o755)
		case "full device":
			os.Mkdir(bad, 0o755)
			if os.Symlink("/dev/full", f) != nil {
				continue
			}
			if len(s.vocab) == 0 {
				continue
			}
			if fi, err := os.Stat(filepath.Join(dir, filepath.Base(f))); err != nil || fi.Size() == 0 {
				continue // nothing to write
			}
		}
		before := tree(dir)
		err := s.real.Save(bad, name...)
		c.Note("faults while saving: " + kind)
		if err == nil {
			c.Fail("save-error", "%s: saving gives no error: %s", kind, desc)
			return
		}
		if d := diffTree(before, tree(dir)); d != nil {
			c.Fail("save-error", "%s: saving elsewhere changed %q: %s", kind, d, desc)
			return
		}
	}
	for i := 0; i < 2; i++ {
		bad := filepath.Join(root, fmt.Sprint("load", i))
		os.Mkdir(bad, 0o755)
		for _, f := range s.files {
			b, _ := os.ReadFile(filepath.Join(dir, pre+f))
			os.WriteFile(filepath.Join(bad, pre+f), b, 0o644)
		}
		name := gen.Pick(r, s.files...)
		f := filepath.Join(bad, pre+name)
		b, _ := os.ReadFile(f)
		kind := gen.Pick(r, "missing", "folder", "cut off", "not this format")
		switch kind {
		case "missing":
			os.Remove(f)
		case "folder":
			os.Remove(f)
			os.Mkdir(f, 0o755)
		case "cut off":
			if name != "vocab.json" {
				continue // other files may end anywhere
			}
			b = bytes.TrimSpace(b)
			os.WriteFile(f, b[:r.Intn(len(b))], 0o644)
		case "not this format":
			switch name {
			case "vocab.json":
				os.WriteFile(f, []byte(gen.Pick(r, "[1, 2]", "[]", `"a"`, "{]", "a b", "{\"a\": 1}}")), 0o644)
			case "merges.txt":
				os.WriteFile(f, append(b, gen.Pick(r, "one\n", "a b c\n", "\n", "a  b\n")...), 0o644)
			default:
				continue
			}
		}
		c.Note("faults while loading: " + kind + " " + name)
		var err error
		if !c.Guard("load-panic", kind+" "+name+": "+desc, func() { _, err = s.load(bad, pre) }) {
			return
		}
		if err == nil {
			c.Fail("load-error", "%s %s: loading gives no error: %s", kind, name, desc)
			return
		}
	}
}
