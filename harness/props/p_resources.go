package props

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/wordpiece"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretrained"
	"github.com/sugarme/tokenizer/util"

	"verif/harness/core"
	"verif/harness/gen"
)

func init() {
	core.Register(&core.Prop{ID: "P35", Quick: 6000, Thorough: 90000,
		Rule: "each case runs one to four operations that use files, the network or goroutines (saving and loading models, reading configurations, training from files, fetching, batches), most of them with a fault; after each, the process's open files, its goroutines that run or were started by library code, and the folders of the case are compared with those before; non-trivial: an operation met a fault or used goroutines",
		Run:  resources})
}

// openFiles lists the regular files and folders that the process holds open below dir.
func openFiles(dir string) map[string]string {
	out := map[string]string{}
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	for _, e := range es {
		if to, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && (strings.HasPrefix(to, dir) || strings.HasPrefix(to, "/dev/full")) {
			out[e.Name()] = to
		}
	}
	return out
}

// running gives the goroutines of the library, by number.
func running() map[string]string {
	buf := make([]byte, 1<<16)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	out := map[string]string{}
	for i, g := range strings.Split(string(buf), "\n\n") {
		if i == 0 { // this one
			continue
		}
		own := false
		for _, l := range strings.Split(g, "\n") {
			l = strings.TrimPrefix(l, "created by ")
			own = own || strings.HasPrefix(l, "github.com/sugarme/tokenizer")
		}
		if own {
			id, _, _ := strings.Cut(strings.TrimPrefix(g, "goroutine "), " ")
			out[id] = g
		}
	}
	return out
}

// newFiles lists what is in dir now and was not before, but for what is expected.
func newFiles(dir string, before map[string]string, expected []string) (out []string) {
	ok := map[string]bool{}
	for _, e := range expected {
		for ; len(e) > len(dir); e = filepath.Dir(e) {
			ok[e] = true
		}
	}
	for p := range tree(dir) {
		if _, was := before[p]; !was {
			if f := filepath.Join(dir, p); !ok[f] {
				out = append(out, p)
			}
		}
	}
	sort.Strings(out)
	return
}

// task is one operation.
type task struct {
	name  string
	fault bool
	do    func()
	makes []string // files it may make
}

func resources(c *core.C) {
	r := c.R
	root, err := os.MkdirTemp(os.Getenv("VDRV_SCRATCH"), "res")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(root)
	if old, ok := os.LookupEnv("TMPDIR"); ok {
		defer os.Setenv("TMPDIR", old)
	} else {
		defer os.Unsetenv("TMPDIR")
	}
	os.Mkdir(filepath.Join(root, "tmp"), 0o755)
	os.Setenv("TMPDIR", filepath.Join(root, "tmp"))
	var names []string
	nontrivial := false
	for n := 1 + r.Intn(4); n > 0 && !c.Failed(); n-- {
		t := gen.Pick(r, modelTask, modelTask, configTask, configTask, trainTask, fetchTask, batchTask, tallyTask, readTask)(c, r, root)
		names = append(names, t.name)
		what := strings.Join(names, " ; ")
		c.Detail("%s", what)
		nontrivial = nontrivial || t.fault
		files, fds, gs := tree(root), openFiles(root), running()
		// files that nobody closes must not be closed by the collector before they are looked for
		gc := debug.SetGCPercent(-1)
		panicked := false
		func() {
			defer func() {
				// a malformed configuration may panic: other properties judge it
				panicked = recover() != nil
			}()
			t.do()
		}()
		left := openFiles(root)
		debug.SetGCPercent(gc)
		c.Note("operations watched")
		kind, _, _ := strings.Cut(t.name, ":")
		c.Note("watched: " + kind)
		if t.fault {
			c.Note("with a fault")
		}
		if panicked {
			c.Note("ended by a panic")
		}
		for fd, f := range left {
			if fds[fd] != f {
				c.Fail("open-file", "%s is still open after %s", strings.TrimPrefix(f, root), what)
				return
			}
		}
		if !settled(gs) {
			for id, g := range running() {
				if _, was := gs[id]; !was {
					c.Fail("goroutine", "still there after %s: %.900s", what, g)
					return
				}
			}
		}
		if odd := newFiles(root, files, t.makes); odd != nil {
			c.Fail("left-over", "%q left by %s", odd, what)
			return
		}
	}
	c.Eval(strings.Join(names, " ; "), nontrivial)
	c.Sample("operations", strings.Join(names, " ; "))
}

// settled waits for the goroutines that end on their own.
func settled(before map[string]string) bool {
	for end := time.Now().Add(20 * time.Second); ; {
		more := false
		for id := range running() {
			if _, was := before[id]; !was {
				more = true
			}
		}
		if !more {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(200 * time.Microsecond)
	}
}

// spoilFile gives a file one of the usual faults.
func spoilFile(r *rand.Rand, f string) string {
	b, _ := os.ReadFile(f)
	kind := gen.Pick(r, "whole", "missing", "folder", "cut", "garbage", "empty", "long line", "binary")
	switch kind {
	case "missing":
		os.Remove(f)
	case "folder":
		os.Remove(f)
		os.Mkdir(f, 0o755)
	case "cut":
		os.WriteFile(f, b[:r.Intn(len(b)+1)], 0o644)
	case "garbage":
		os.WriteFile(f, []byte(gen.Pick(r, "[1, 2]", "{]", "a b c\nd\n", "\"x\"", "\n\n", "null")), 0o644)
	case "empty":
		os.WriteFile(f, nil, 0o644)
	case "long line":
		os.WriteFile(f, append(b, bytes.Repeat([]byte("x"), 70000)...), 0o644)
	case "binary":
		os.WriteFile(f, append(b, 0, 0xff, 0xfe, '\n', 0xc3), 0o644)
	}
	return kind
}

func modelTask(c *core.C, r *rand.Rand, root string) task {
	made, _ := wordsFor(r)
	s := makeSaved(r, lineSafe(made))
	dir, err := os.MkdirTemp(root, "model")
	if err != nil {
		panic(err)
	}
	pre := gen.Pick(r, "", "x-")
	var name []string
	if pre != "" {
		name = []string{"x"}
	} else if strings.HasPrefix(s.name, "unigram") {
		pre = "tokenizer-"
	}
	first := gen.Pick(r, s.files...)
	kind, _, _ := strings.Cut(s.name, " ")
	var makes []string
	for _, f := range s.files {
		makes = append(makes, filepath.Join(dir, pre+f))
	}
	switch r.Intn(3) {
	case 0: // saved, perhaps where it cannot be
		f := filepath.Join(dir, pre+first)
		how := gen.Pick(r, "well", "missing folder", "folder in the way", "full device", "over other files")
		to := dir
		switch how {
		case "missing folder":
			to = filepath.Join(dir, "not", "there")
			makes = append(makes, to)
			for _, f := range s.files { // the folder may be made
				makes = append(makes, filepath.Join(to, pre+f))
			}
		case "folder in the way":
			os.Mkdir(f, 0o755)
		case "full device":
			os.Symlink("/dev/full", f)
		case "over other files":
			os.WriteFile(f, bytes.Repeat([]byte("old\n"), 300), 0o644)
		}
		return task{name: "saving a model: " + kind + " " + how, fault: how != "well" && how != "over other files", makes: makes, do: func() { s.real.Save(to, name...) }}
	default:
		if err := s.real.Save(dir, name...); err != nil {
			panic(err)
		}
		how := spoilFile(r, filepath.Join(dir, pre+first))
		if (kind == "wordpiece" || kind == "wordlevel") && r.Intn(3) == 0 {
			// the builder ends the program where it cannot read: see P19
			return task{name: "loading a model: " + kind + " " + first + " " + how, fault: how != "whole", do: func() {
				wordpiece.NewWordPieceFromFile(filepath.Join(dir, pre+first), "[UNK]")
			}}
		}
		return task{name: "loading a model: " + kind + " " + first + " " + how, fault: how != "whole", do: func() { s.load(dir, pre) }}
	}
}

func configTask(c *core.C, r *rand.Rand, root string) task {
	var b bytes.Buffer
	j := plainJSON(cfgPipe(r).JSON).(map[string]any)
	note := ""
	if r.Intn(3) == 0 {
		note = spoil(r, j)
	}
	writeJSON(r, &b, j, gen.Pick(r, -1, 0))
	dir, err := os.MkdirTemp(root, "config")
	if err != nil {
		panic(err)
	}
	f := filepath.Join(dir, "tokenizer.json")
	os.WriteFile(f, b.Bytes(), 0o644)
	how := spoilFile(r, f)
	fault := how != "whole" || note != ""
	if r.Intn(2) == 0 {
		return task{name: "reading a configuration: " + how + " " + note, fault: fault, do: func() { tokenizer.ConfigFromFile(f) }}
	}
	return task{name: "a tokenizer from a file: " + how + " " + note, fault: fault, do: func() { pretrained.FromFile(f) }}
}

// trainTask trains from files of which some may not be readable, with parts that may fail.
func trainTask(c *core.C, r *rand.Rand, root string) task {
	tk := tokenizer.NewTokenizer(gen.MakeWordLevel(r, []string{"old"}, []string{"[UNK]"}).Real)
	x, y := gen.Normalizer(r, false), gen.PreTokenizer(r, false, false)
	ns := []normalizer.Normalizer{x.Real}
	desc := ""
	switch r.Intn(4) {
	case 0:
		at := 1 + r.Intn(12)
		ns = append(ns, &lockedFail{f: failsOn{n: at}})
		desc = fmt.Sprintf(" normalizer fails on line %d", at)
		tk.WithPreTokenizer(y.Real)
	case 1:
		at := 1 + r.Intn(12)
		tk.WithPreTokenizer(&lockedFail{f: failsOn{n: at}})
		desc = fmt.Sprintf(" pre-tokenizer fails on line %d", at)
	default:
		tk.WithPreTokenizer(y.Real)
	}
	tk.WithNormalizer(normalizer.NewSequence(ns))
	dir, err := os.MkdirTemp(root, "train")
	if err != nil {
		panic(err)
	}
	var files []string
	for i := 1 + r.Intn(6); i > 0; i-- {
		f := filepath.Join(dir, fmt.Sprintf("f%d.txt", i))
		var b strings.Builder
		for k := r.Intn(8); k > 0; k-- {
			b.WriteString(strings.ReplaceAll(gen.Any(r), "\n", " ") + "\n")
		}
		os.WriteFile(f, []byte(b.String()), 0o644)
		files = append(files, f)
	}
	if r.Intn(3) == 0 {
		f := filepath.Join(dir, "none.txt")
		how := gen.Pick(r, "missing", "folder")
		if how == "folder" {
			os.Mkdir(f, 0o755)
		}
		k := r.Intn(len(files) + 1)
		files = append(files[:k:k], append([]string{f}, files[k:]...)...)
		desc += " one is " + how
	}
	if r.Intn(12) == 0 {
		// the last file goes while the first is read
		last := filepath.Join(dir, "last.txt")
		os.WriteFile(last, []byte("a b\n"), 0o644)
		os.WriteFile(files[0], []byte("a b\nc\n"), 0o644)
		for n := gen.Pick(r, 50, 200); n > 0; n-- {
			files = append(files, files[0])
		}
		files = append(files, last)
		tk.WithNormalizer(normalizer.NewSequence([]normalizer.Normalizer{&remover{f: last}, tk.GetNormalizer()}))
		desc += " one vanishes"
		c.Note("files that vanish")
	}
	tr := bpe.NewBpeTrainer(0, 40)
	tr.ShowProgress = false
	return task{name: fmt.Sprintf("training: from %d files%s", len(files), desc), fault: true, do: func() { tk.Train(tr, files) }}
}

// remover removes a file when it is first asked to normalize.
type remover struct {
	f    string
	once sync.Once
}

func (x *remover) Normalize(n *normalizer.NormalizedString) (*normalizer.NormalizedString, error) {
	x.once.Do(func() { os.Remove(x.f) })
	return n, nil
}

// lockedFail is failsOn for several goroutines.
type lockedFail struct {
	mu sync.Mutex
	f  failsOn
}

func (l *lockedFail) Normalize(n *normalizer.NormalizedString) (*normalizer.NormalizedString, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.f.Normalize(n)
}

func (l *lockedFail) PreTokenize(p *tokenizer.PreTokenizedString) (*tokenizer.PreTokenizedString, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.f.PreTokenize(p)
}

func fetchTask(c *core.C, r *rand.Rand, root string) task {
	startSite()
	s := &site{files: map[string][]byte{}, slow: r.Intn(6) == 0, gzip: r.Intn(4) == 0}
	setSite(s)
	cache := filepath.Join(root, "cache")
	os.MkdirAll(cache, 0o755)
	os.Setenv("GO_TOKENIZER", cache)
	tokenizer.CachedDir = cache
	model, name := gen.Pick(r, "bert", "org/model"), gen.Pick(r, "tokenizer.json", "sub/vocab.txt")
	how := gen.Pick(r, "well", "local", "local folder", "absent", "fault", "fault", "fault", "no room")
	fault := how != "well" && how != "local"
	body := fileBody(r)
	switch how {
	case "well":
		s.files["/"+model+"/resolve/main/"+name] = body
	case "local", "local folder":
		model = filepath.Join(root, "local")
		f := filepath.Join(model, name)
		os.MkdirAll(filepath.Dir(f), 0o755)
		if how == "local" {
			os.RemoveAll(f)
			os.WriteFile(f, body, 0o644)
		} else if os.RemoveAll(f) == nil {
			os.MkdirAll(f, 0o755)
		}
	case "fault":
		s.files["/"+model+"/resolve/main/"+name] = body
		f := gen.Pick(r, netFaults...)
		how = "the server gives " + f
		for i := 0; i < 20; i++ {
			s.faults = append(s.faults, f)
		}
	case "no room":
		// a folder where the file should go
		s.files["/"+model+"/resolve/main/"+name] = body
		os.RemoveAll(filepath.Join(cache, model, name))
		os.MkdirAll(filepath.Join(cache, model, name, "x"), 0o755)
	}
	n := gen.Pick(r, 1, 1, 3)
	return task{name: fmt.Sprintf("fetching: %s %s x%d", name, how, n), fault: fault, makes: []string{filepath.Join(cache, model, name)}, do: func() {
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				tokenizer.CachedPath(model, name)
			}()
		}
		wg.Wait()
	}}
}

// batchTask encodes and decodes many inputs at once, of which one may fail.
func batchTask(c *core.C, r *rand.Rand, root string) task {
	p := gen.Make(r, gen.Opts{Trunc: true, Pad: true, Dec: true, Script: r.Intn(20) == 0})
	what := "well"
	n := gen.Pick(r, 1, 2, 5, 20)
	if r.Intn(2) == 0 {
		what = "the model fails"
		// on words of a kind, so that which goroutine meets it does not matter
		p.Real.WithModel(picky{p.Real.GetModel(), int(r.Uint32() % 5)})
	}
	var ins []tokenizer.EncodeInput
	var ids [][]int
	for i := 0; i < n; i++ {
		a, b := inputs(r, p, true)
		ins = append(ins, gen.RealEncodeInput(a, b))
		var s []int
		for k := r.Intn(10); k > 0; k-- {
			s = append(s, r.Intn(60))
		}
		ids = append(ids, s)
	}
	special := r.Intn(2) == 0
	return task{name: fmt.Sprintf("batches: %d inputs, %s", n, what), fault: what != "well", do: func() {
		p.Real.EncodeBatch(ins, special)
		p.Real.DecodeBatch(ids, special)
	}}
}

// picky fails on words by their length.
type picky struct {
	tokenizer.Model
	k int
}

func (m picky) Tokenize(s string) ([]tokenizer.Token, error) {
	if len(s)%5 == m.k {
		return nil, errPart
	}
	return m.Model.Tokenize(s)
}

// tallyTask trains from counts, sometimes of enough words that several goroutines share them.
func tallyTask(c *core.C, r *rand.Rand, root string) task {
	n := 1 + r.Intn(50)
	if r.Intn(20) == 0 {
		n = gen.Pick(r, 10000, 10001, 10003, 12000)
	}
	wc := map[string]int{}
	for i := 0; i < n; i++ {
		wc[fmt.Sprintf("w%da%d", i, i%7)] = 1 + r.Intn(5)
	}
	if n >= 10000 {
		c.Note("counts shared by goroutines")
	}
	return task{name: fmt.Sprintf("counts: %d words", n), fault: n >= 10000, do: func() {
		tr := bpe.NewBpeTrainer(0, 30)
		tr.ShowProgress = false
		tr.Train(wc)
	}}
}

// readTask reads files by the plain helpers.
func readTask(c *core.C, r *rand.Rand, root string) task {
	dir, err := os.MkdirTemp(root, "read")
	if err != nil {
		panic(err)
	}
	f := filepath.Join(dir, "f.txt")
	os.WriteFile(f, []byte(strings.Repeat("a b\nc\n", r.Intn(50))), 0o644)
	how := spoilFile(r, f)
	switch r.Intn(4) {
	case 0:
		return task{name: "reading: lines " + how, fault: how != "whole", do: func() { util.ReadAllLn(f, false) }}
	case 1:
		return task{name: "reading: size " + how, fault: how != "whole", do: func() { util.FileSize(f) }}
	case 2:
		return task{name: "reading: a wordpiece vocabulary " + how, fault: how != "whole", do: func() { wordpiece.NewWordPieceFromFile(f, "[UNK]", 100) }}
	default:
		v := filepath.Join(dir, "v.json")
		os.WriteFile(v, []byte(`{"a": 0, "b": 1, "c": 2}`), 0o644)
		return task{name: "reading: merges " + how, fault: how != "whole", do: func() {
			b := bpe.NewBpeBuilder()
			b.Files(v, f)
			b.Build()
		}}
	}
}
