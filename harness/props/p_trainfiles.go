package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/bpe"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "P30", Race: true, Quick: 500, Thorough: 20000,
		Rule: "each case writes random files (empty ones, long ones, with any line ends, given in any order or twice), trains a tokenizer with random normalizer and pre-tokenizer on them under the race detector, with delays injected into the counting, and compares the word counts the trainer gets, the trained model and the special tokens with the reference counts and the naive trainer; or gives it a file that cannot be read among others, which must give an error and leave the model; non-trivial: more than one file with words",
		Run:  trainFiles})
}

// spyTrainer shows what a trainer is given.
type spyTrainer struct {
	*bpe.BpeTrainer
	slow  bool
	calls atomic.Int64
	dict  map[string]int
	times int
	stub  tokenizer.Model
}

func (t *spyTrainer) ProcessTokens(words map[string]int, tokens []string) {
	t.calls.Add(1)
	if t.slow {
		jitter()
	}
	t.BpeTrainer.ProcessTokens(words, tokens)
}

func (t *spyTrainer) Train(words map[string]int) (tokenizer.Model, []tokenizer.AddedToken) {
	t.dict = gen.Copy(words)
	t.times++
	if t.stub != nil {
		return t.stub, nil
	}
	return t.BpeTrainer.Train(words)
}

func trainFiles(c *core.C) {
	r := c.R
	root := filepath.Join(os.Getenv("VDRV_SCRATCH"), fmt.Sprintf("train-%d", c.Idx))
	os.MkdirAll(root, 0o755)
	defer os.RemoveAll(root)
	old := gen.MakeWordLevel(r, []string{"old", "model"}, []string{"[UNK]"})
	tk := tokenizer.NewTokenizer(old.Real)
	desc := ""
	n := ref.Norm(func(s ref.Str) ref.Str { return s })
	big := r.Intn(10) == 0 // lines longer than what is read at once; with the plainest pipeline, as splits of such are slow
	huge := !big && r.Intn(60) == 0 // counts that do not fit 16 bits
	if huge {
		desc += "many lines "
	} else if big {
		desc += "long lines "
	} else if r.Intn(2) == 0 {
		x := gen.Normalizer(r, false)
		tk.WithNormalizer(x.Real)
		n = x.Ref
		desc += "norm=" + x.Name + " "
	}
	var pt *gen.PT
	switch k := r.Intn(5); {
	case k == 0 || big || huge:
	case k == 1:
		x := gen.ByteLevelPT(r)
		pt = &x
	default:
		x := gen.PreTokenizer(r, false, false)
		pt = &x
	}
	if pt != nil {
		tk.WithPreTokenizer(pt.Real)
		desc += "pre=" + pt.Name + " "
	}
	slow := r.Intn(2) == 0 && !huge
	if slow {
		if x := tk.GetNormalizer(); x != nil {
			tk.WithNormalizer(slowNorm{x})
		}
		if x := tk.GetPreTokenizer(); x != nil {
			tk.WithPreTokenizer(slowPT{x})
		}
	}
	// the files
	wc := map[string]int{}
	seen := map[string]map[string]int{}
	count := func(line string) {
		m, ok := seen[line]
		if !ok {
			m = map[string]int{}
			ps := []ref.Piece{{S: n(ref.New(line))}}
			if pt != nil {
				ps = pt.Apply(ps)
			}
			for _, p := range ps {
				if w := p.S.String(); w != "" {
					m[w]++
				}
			}
			seen[line] = m
		}
		for w, k := range m {
			wc[w] += k
		}
	}
	var files []string
	withWords, lines := 0, 0
	bodies := map[string]string{}
	for i := gen.Pick(r, 0, 1, 2, 3, 5, 9); i > 0; i-- {
		var b strings.Builder
		m := gen.Pick(r, 0, 1, 3, 10, 30)
		var pool []string
		for k := 0; k < 4; k++ {
			pool = append(pool, strings.NewReplacer("\n", " ", "\r", "").Replace(gen.Any(r)))
		}
		if big {
			pool[0] = strings.Repeat("aé b "+pool[0], 1+70000/(6+len(pool[0])))[:65536]
			pool[0] = strings.ToValidUTF8(pool[0], "")
			c.Note("lines of 64 KB")
			if r.Intn(16) == 0 {
				pool[0] = strings.Repeat(pool[0]+"x", 35+r.Intn(14))
				m = min(m, 2)
				c.Note("lines of more than 2 MB")
			}
		}
		if r.Intn(15) == 0 {
			m = max(m, 1500)
			for k := range pool {
				if rs := []rune(pool[k]); len(rs) > 30 {
					pool[k] = string(rs[:30])
				}
			}
		}
		if huge && len(files) < 2 {
			m = 90000
			for k := range pool {
				if rs := []rune(pool[k]); len(rs) > 12 {
					pool[k] = string(rs[:12])
				}
			}
			pool[3], pool[2], pool[1] = pool[0], pool[0], pool[0]
			c.Note("files of 90,000 lines")
		}
		for ; m > 0; m-- {
			b.WriteString(gen.Pick(r, pool...))
			if m > 1 || r.Intn(2) == 0 {
				b.WriteString(gen.Pick(r, "\n", "\n", "\n", "\r\n", "\n\n", "\r\r\n"))
			}
		}
		f := filepath.Join(root, fmt.Sprintf("f%d.txt", i))
		if err := os.WriteFile(f, []byte(b.String()), 0o644); err != nil {
			panic(err)
		}
		bodies[f] = b.String()
		files = append(files, f)
		if r.Intn(8) == 0 {
			files = append(files, f)
			desc += "one file twice "
		}
	}
	r.Shuffle(len(files), func(i, j int) { files[i], files[j] = files[j], files[i] })
	for _, f := range files {
		body := bodies[f]
		if body == "" {
			continue
		}
		before := len(wc)
		ls := strings.Split(body, "\n")
		if ls[len(ls)-1] == "" {
			ls = ls[:len(ls)-1]
		}
		for _, l := range ls {
			count(strings.TrimSuffix(l, "\r"))
			lines++
		}
		if len(wc) > before {
			withWords++
		}
	}
	t := trainOpts(r, wc, false)
	t.Size = min(t.Size, 150)
	long := false
	for w := range wc {
		// such words take too long to learn: only the counts are judged
		long = long || len(w) > 1500
	}
	if vagueNames(t, wc) {
		t.Prefix = ""
	}
	bad := ""
	if r.Intn(5) == 0 {
		bad = gen.Pick(r, "missing", "directory", "missing folder")
		f := filepath.Join(root, "none.txt")
		switch bad {
		case "directory":
			f = filepath.Join(root, "dir")
			os.MkdirAll(f, 0o755)
		case "missing folder":
			f = filepath.Join(root, "no", "none.txt")
		}
		k := r.Intn(len(files) + 1)
		files = append(files[:k:k], append([]string{f}, files[k:]...)...)
	}
	desc += fmt.Sprintf("%d files, %d lines %s %+v words %s", len(files), lines, bad, t, showCounts(wc))
	c.Detail("%s", desc)
	c.Eval(desc, withWords > 1 || bad != "")
	stub := gen.MakeWordLevel(r, []string{"new"}, []string{"[UNK]"})
	tr := &spyTrainer{BpeTrainer: realTrainer(t, false), slow: slow}
	if long {
		tr.stub = stub.Real
	}
	given := append([]string{}, files...)
	var err error
	if !c.Guard("panic", desc, func() { err = tk.Train(tr, files) }) {
		return
	}
	if !sameStrings(files, given) {
		c.Fail("input", "the list of files was changed: %s", desc)
		return
	}
	if bad != "" {
		c.Note("unreadable: " + bad)
		if err == nil {
			c.Fail("no-error", "no error for a file that cannot be read (%s): %s", bad, desc)
			return
		}
		if d := diffVocab(tk.GetVocab(true), old.Vocab); d != "" {
			c.Fail("half", "the model was replaced although training failed: %s: %s", d, desc)
		}
		return
	}
	if err != nil {
		c.Fail("error", "%v: %s", err, desc)
		return
	}
	c.NoteN("files", len(files))
	c.NoteN("lines", lines)
	c.NoteN("words", len(wc))
	delete(tr.dict, "")
	if d := diffVocab(tr.dict, wc); d != "" || tr.times != 1 {
		c.Fail("counts", "word counts (%d trainings): %s: %s", tr.times, d, desc)
		return
	}
	if long {
		if d := diffVocab(tk.GetVocab(false), stub.Vocab); d != "" {
			c.Fail("vocab", "not the trained model: %s: %s", d, desc)
		}
		return
	}
	want := t.Run(wc, nil)
	if d := diffVocab(tk.GetVocab(false), want.Vocab); d != "" {
		c.Fail("vocab", "%s: %s", d, desc)
		return
	}
	full := gen.Copy(want.Vocab)
	for _, s := range t.Specials {
		if _, ok := full[s]; !ok {
			full[s] = len(full)
		}
	}
	if d := diffVocab(tk.GetVocab(true), full); d != "" {
		c.Fail("full-vocab", "%s: %s", d, desc)
		return
	}
	special := map[string]bool{}
	for _, s := range tk.GetSpecialTokens() {
		special[s] = true
	}
	for _, s := range t.Specials {
		if !special[s] {
			c.Fail("special", "%+q is not a special token: %s", s, desc)
			return
		}
	}
}
