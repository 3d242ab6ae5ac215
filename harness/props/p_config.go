package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/pretrained"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "P20", Quick: 2400, Thorough: 120000,
		Rule: "each case writes the configuration of a random tokenizer (every supported component, nested sequences, added tokens, truncation, padding; keys in any order, with null, absent-by-default and unknown ones), loads it from a reader or a file, maybe among other configurations, and compares encodings, decodings, vocabulary and added tokens with the reference pipeline, which never sees the configuration; then puts an unsupported type, behavior, scheme or pattern at a random place of it, which must give an error, and loads files that are absent, cut off or no JSON, which must too; non-trivial: a configuration with at least three components",
		Run:  configs})
}

// writeJSON writes a value with the keys of objects in any order.
func writeJSON(r *rand.Rand, b *bytes.Buffer, v any, indent int) {
	nl := func(d int) {
		if indent >= 0 {
			b.WriteString("\n" + strings.Repeat(" ", 2*(indent+d)))
		}
	}
	next := indent
	if indent >= 0 {
		next++
	}
	switch x := v.(type) {
	case map[string]any:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		b.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				b.WriteByte(',')
			}
			nl(1)
			writeJSON(r, b, k, -1)
			b.WriteByte(':')
			writeJSON(r, b, x[k], next)
		}
		nl(0)
		b.WriteByte('}')
	case []any:
		b.WriteByte('[')
		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			nl(1)
			writeJSON(r, b, e, next)
		}
		b.WriteByte(']')
	default:
		// strings escaped in either way
		var t bytes.Buffer
		e := json.NewEncoder(&t)
		e.SetEscapeHTML(r.Intn(2) == 0)
		if err := e.Encode(v); err != nil {
			panic(err)
		}
		b.WriteString(strings.TrimSpace(t.String()))
	}
}

// plainJSON turns any value into maps, slices and scalars of its own.
func plainJSON(v any) any {
	var out any
	b, err := json.Marshal(v)
	if err == nil {
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		err = d.Decode(&out)
	}
	if err != nil {
		panic(err)
	}
	return out
}

// variants rewrites a configuration without changing what it means.
func variants(r *rand.Rand, j map[string]any) (note string) {
	for _, k := range []string{"normalizer", "pre_tokenizer", "post_processor", "decoder", "truncation", "padding"} {
		if _, ok := j[k]; !ok && r.Intn(2) == 0 {
			j[k] = nil
		}
	}
	if _, ok := j["added_tokens"]; !ok && r.Intn(2) == 0 {
		j["added_tokens"] = gen.Pick[any](r, nil, []any{})
	}
	if r.Intn(4) == 0 {
		j["comment"] = map[string]any{"type": "Unknown", "x": []any{json.Number("1"), nil}}
	}
	// parameters that have their default value
	var walk func(v any)
	walk = func(v any) {
		switch x := v.(type) {
		case []any:
			for _, e := range x {
				walk(e)
			}
		case map[string]any:
			for _, k := range []string{"normalizers", "pretokenizers", "processors", "decoders"} {
				walk(x[k])
			}
			drop := func(k string) {
				if f, ok := x[k].(bool); ok && !f && r.Intn(2) == 0 {
					delete(x, k)
					note += " without " + k
				}
			}
			switch x["type"] {
			case "BertNormalizer":
				if x["strip_accents"] == x["lowercase"] && r.Intn(2) == 0 {
					x["strip_accents"] = nil
					note += " strip_accents null"
				} else if x["strip_accents"] == x["lowercase"] && r.Intn(2) == 0 {
					delete(x, "strip_accents")
					note += " without strip_accents"
				}
				drop("clean_text")
				drop("handle_chinese_chars")
				drop("lowercase")
			case "ByteLevel":
				drop("add_prefix_space")
				drop("trim_offsets")
			case "Strip", "StripNormalizer":
				if _, dec := x["start"]; !dec {
					drop("strip_left")
					drop("strip_right")
				}
			case "Metaspace":
				if _, ok := x["prepend_scheme"]; !ok {
					drop("add_prefix_space")
				}
			}
		}
	}
	for _, k := range []string{"normalizer", "pre_tokenizer", "post_processor", "decoder"} {
		walk(j[k])
	}
	// a model whose type is told by the decoder
	if m := j["model"].(map[string]any); r.Intn(3) == 0 {
		d, _ := j["decoder"].(map[string]any)
		switch dt := d["type"]; m["type"] {
		case "BPE":
			if dt != "WordPiece" {
				delete(m, "type")
				note += " without model type"
			}
		case "WordPiece":
			if dt == "WordPiece" {
				delete(m, "type")
				note += " without model type"
			}
		}
	}
	return note
}

// spoil puts something unsupported into a configuration.
func spoil(r *rand.Rand, j map[string]any) string {
	type place struct {
		path string
		do   func()
	}
	var ps []place
	var walk func(path, section string, v any)
	walk = func(path, section string, v any) {
		x, ok := v.(map[string]any)
		if !ok {
			return
		}
		if t, ok := x["type"].(string); ok {
			foreign := map[string][]string{"normalizer": {"Whitespace", "WordPiece", "bertnormalizer", "NFX", "Nmt", "Nmt"}, "pre_tokenizer": {"NFC", "bytelevel", "Regex", "BertNormalizer"},
				"post_processor": {"Whitespace", "Template", "bertprocessing", "NFC"}, "decoder": {"WordLevel", "Unigram", "NFC", "Wordpiece", "Split"}, "model": {"bpe", "Unknown", "Wordpiece", "CharBPE"}}[section]
			n := gen.Pick(r, append(foreign, "", "Foo")...)
			ps = append(ps, place{fmt.Sprintf("%s type %s -> %s", path, t, n), func() { x["type"] = n }})
			bad := func(k, v string) {
				if _, ok := x[k].(string); ok {
					ps = append(ps, place{fmt.Sprintf("%s %s -> %s", path, k, v), func() { x[k] = v }})
				}
			}
			if t == "Split" || t == "Punctuation" {
				bad("behavior", gen.Pick(r, "removed", "", "Merged", "isolated"))
			}
			if t == "Metaspace" {
				bad("prepend_scheme", gen.Pick(r, "sometimes", "", "alway"))
			}
			if t == "Precompiled" {
				m, _ := x["precompiled_charsmap"].(string)
				bad("precompiled_charsmap", gen.Pick(r, "!"+m, m+"*", "", "AAA", "é"))
			}
			if t == "Split" {
				ps = append(ps, place{path + " pattern", func() { x["pattern"] = map[string]any{"Glob": "a*"} }})
			}
		}
		for _, k := range []string{"normalizers", "pretokenizers", "processors", "decoders"} {
			if l, ok := x[k].([]any); ok {
				for i, e := range l {
					walk(fmt.Sprintf("%s.%s[%d]", path, k, i), section, e)
				}
			}
		}
	}
	for _, k := range []string{"normalizer", "pre_tokenizer", "post_processor", "decoder", "model"} {
		walk(k, k, j[k])
	}
	p := gen.Pick(r, ps...)
	p.do()
	return p.path
}

// load gives a configuration to the library.
func load(r *rand.Rand, data []byte) (*tokenizer.Tokenizer, error) {
	if r.Intn(3) > 0 {
		return pretrained.FromReader(bytes.NewReader(data))
	}
	f := filepath.Join(os.Getenv("VDRV_SCRATCH"), fmt.Sprintf("tokenizer-%d.json", r.Intn(1<<30)))
	if err := os.WriteFile(f, data, 0o644); err != nil {
		panic(err)
	}
	defer os.Remove(f)
	return pretrained.FromFile(f)
}

func cfgPipe(r *rand.Rand) *gen.Pipe {
	o := gen.Opts{Cfg: true, Trunc: true, Pad: true, Dec: true, Script: r.Intn(20) == 0}
	for {
		p := gen.Make(r, o)
		if p.JSON != nil && !hasSpaceMerge(p) {
			return p
		}
	}
}

// hasSpaceMerge: merges of tokens that hold spaces cannot be written (a known limit of the
// form the library reads).
func hasSpaceMerge(p *gen.Pipe) bool {
	if p.Model.BPE == nil {
		return false
	}
	for _, m := range p.Model.BPE.Merges {
		if strings.ContainsAny(m[0]+m[1], " ") {
			return true
		}
	}
	return false
}

func configs(c *core.C) {
	r := c.R
	p := cfgPipe(r)
	j := plainJSON(p.JSON).(map[string]any)
	note := variants(r, j)
	if p.Model.BPE != nil && r.Intn(6) == 0 {
		// every merge dropped
		j["model"].(map[string]any)["dropout"] = json.Number(gen.Pick(r, "1", "1.0", "1e0"))
		b := *p.Model.BPE
		b.Merges = nil
		p.Model.BPE = &b
		p.Ref.Model = b.New()
		note += " dropout 1"
		c.Note("all merges dropped")
	}
	var b bytes.Buffer
	writeJSON(r, &b, j, gen.Pick(r, -1, 0))
	data := b.Bytes()
	desc := p.String() + note
	c.Detail("%s\n%s", desc, data)
	c.Sample("configuration", string(data))
	other := func() {
		if r.Intn(2) == 0 {
			var b bytes.Buffer
			writeJSON(r, &b, plainJSON(cfgPipe(r).JSON), -1)
			if _, err := load(r, b.Bytes()); err != nil {
				c.Fail("load", "%v: %s", err, b.Bytes())
			}
			c.Note("other configurations between")
		}
	}
	other()
	tk, err := load(r, data)
	if err != nil {
		c.Fail("load", "%v: %s\n%s", err, desc, data)
		return
	}
	other()
	if c.Failed() {
		return
	}
	parts := 0
	for k, v := range j {
		if v != nil && k != "version" && k != "comment" {
			parts++
		}
	}
	c.Eval(desc, parts >= 3)
	for k := range sections(j) {
		c.Note("loaded " + k)
	}
	p.Real = tk
	// parameters
	if got := tk.GetTruncation(); (got == nil) != (p.Trunc == nil) || got != nil && *got != *gen.RealTrunc(p.Trunc) {
		c.Fail("truncation", "%+v: %s", got, desc)
		return
	}
	if got := tk.GetPadding(); (got == nil) != (p.Pad == nil) || got != nil && fmt.Sprintf("%+v", *got) != fmt.Sprintf("%+v", *gen.RealPad(p.Pad)) {
		c.Fail("padding", "%+v: %s", got, desc)
		return
	}
	if (tk.GetNormalizer() == nil) != (p.Norm == nil) || (tk.GetPreTokenizer() == nil) != (p.PT == nil) || (tk.GetPostProcessor() == nil) != (p.Post == nil) || (tk.GetDecoder() == nil) != (p.Dec == nil) {
		c.Fail("components", "a component is missing or too many: %s", desc)
		return
	}
	// vocabulary
	full := gen.Copy(p.Model.Vocab)
	for t, id := range p.Ref.Added.Map {
		full[t] = id
	}
	if d := diffVocab(tk.GetVocab(true), full); d != "" {
		c.Fail("vocab", "%s: %s", d, desc)
		return
	}
	if d := diffVocab(tk.GetVocab(false), p.Model.Vocab); d != "" {
		c.Fail("model-vocab", "%s: %s", d, desc)
		return
	}
	p.Short = r.Intn(40) > 0
	for i := 0; i < 5 && !c.Failed(); i++ {
		a, b := inputs(r, p, true)
		e, _, ok := encodeBoth(c, p, a, b, r.Intn(2) == 0)
		if !ok {
			continue
		}
		ids := append([]int{}, e.Ids...)
		if r.Intn(2) == 0 {
			ids = append(ids, r.Intn(len(full)+3)-1)
		}
		for _, skip := range []bool{false, true} {
			want := p.Ref.Decode(ids, skip)
			if got := tk.Decode(append([]int{}, ids...), skip); got != want {
				c.Fail("decode", "ids %v skip=%v decode to %+q, not %+q: %s", ids, skip, got, want, desc)
				return
			}
		}
		c.Note("decodings compared")
	}
	if c.Failed() {
		return
	}
	if d := parts1(c, p, data); d != "" {
		c.Fail("parts", "%s: %s", d, data)
		return
	}
	if d := brokenFiles(c, data); d != "" {
		c.Fail("broken", "%s: %s", d, data)
		return
	}
	// something unsupported
	for i := 0; i < 2; i++ {
		j := plainJSON(p.JSON).(map[string]any)
		what := spoil(r, j)
		b.Reset()
		writeJSON(r, &b, j, -1)
		c.Detail("unsupported: %s\n%s", what, b.Bytes())
		tk, err := load(r, b.Bytes())
		c.Note("unsupported: " + strings.SplitN(strings.SplitN(what, " ", 2)[0], ".", 2)[0])
		if err == nil || tk != nil {
			c.Fail("unsupported", "%s: no error, %s", what, b.Bytes())
			return
		}
	}
}

// parts1 makes the parts of a configuration one by one.
func parts1(c *core.C, p *gen.Pipe, data []byte) string {
	r := c.R
	var cfg tokenizer.Config
	if err := json.Unmarshal(data, &cfg); err != nil {
		panic(err)
	}
	if t, ok := cfg.Model["type"]; ok && r.Intn(2) == 0 {
		// the type of a model told by the decoder alone
		name := map[any]string{"BPE": gen.Pick(r, "ByteLevel", "Metaspace", "BPEDecoder"), "WordPiece": "WordPiece", "WordLevel": "WordLevel", "Unigram": "Unigram"}[t]
		delete(cfg.Model, "type")
		cfg.Decoder = map[string]interface{}{"type": name}
		c.Note("models told by the decoder: " + name)
	}
	m, err := pretrained.CreateModel(&cfg)
	if err != nil || m == nil {
		return fmt.Sprintf("no model: %v", err)
	}
	if d := diffVocab(m.GetVocab(), p.Model.Vocab); d != "" {
		return "the model's vocabulary: " + d
	}
	for _, w := range append([]string{}, p.Texts...) {
		if w == "" {
			continue
		}
		if !validInput(p, ref.Input{Text: w}) {
			continue
		}
		want, ok := p.Ref.Model(w)
		got, err := m.Tokenize(w)
		if ok != (err == nil) {
			return fmt.Sprintf("the model gives error %v for %+q, not %v", err, w, !ok)
		}
		if err != nil {
			continue
		}
		if g := toToks(got); !reflect.DeepEqual(g, nz(want)) {
			return fmt.Sprintf("the model gives %+v for %+q, not %+v", g, w, want)
		}
		c.Note("words given to models alone")
	}
	return ""
}

// halfReader gives the first bytes of something and then fails.
type halfReader struct{ rest []byte }

func (h *halfReader) Read(b []byte) (int, error) {
	if len(h.rest) == 0 {
		return 0, fmt.Errorf("the disk is broken")
	}
	n := copy(b, h.rest)
	h.rest = h.rest[n:]
	return n, nil
}

// brokenFiles loads configurations that are cut off, absent or unreadable.
func brokenFiles(c *core.C, data []byte) string {
	r := c.R
	dir, err := os.MkdirTemp(os.Getenv("VDRV_SCRATCH"), "cfg")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "tokenizer.json")
	at := gen.Pick(r, 0, 1, len(data)/2, len(data)-1, r.Intn(len(data)))
	what := gen.Pick(r, "absent", "folder", "cut", "cut reader", "broken reader", "no JSON", "whole")
	var tk *tokenizer.Tokenizer
	write := func(b []byte) {
		if err := os.WriteFile(f, b, 0o644); err != nil {
			panic(err)
		}
	}
	c.Detail("%s at %d", what, at)
	switch what {
	case "absent":
		f = gen.Pick(r, f, filepath.Join(dir, "no", "tokenizer.json"), f+"/x", "")
		tk, err = pretrained.FromFile(f)
	case "folder":
		f = dir
		tk, err = pretrained.FromFile(f)
	case "cut":
		write(data[:at])
		tk, err = pretrained.FromFile(f)
	case "cut reader":
		tk, err = pretrained.FromReader(bytes.NewReader(data[:at]))
	case "broken reader":
		tk, err = pretrained.FromReader(&halfReader{append([]byte{}, data[:at]...)})
	case "no JSON":
		write([]byte(gen.Pick(r, "tokenizer", "\x00\x01", "<html></html>", "[1, 2]", "\"x\"", "7", "{]")))
		tk, err = pretrained.FromFile(f)
	default:
		write(data)
		tk, err = pretrained.FromFile(f)
		if err != nil || tk == nil {
			return fmt.Sprintf("the file is not read: %v", err)
		}
		var want tokenizer.Config
		if err := json.Unmarshal(data, &want); err != nil {
			panic(err)
		}
		got, err := tokenizer.ConfigFromFile(f)
		if err != nil || got == nil || !reflect.DeepEqual(*got, want) {
			return fmt.Sprintf("ConfigFromFile gives %+v, %v", got, err)
		}
		if now, err := os.ReadFile(f); err != nil || !bytes.Equal(now, data) {
			return "the file has changed"
		}
		c.Note("whole files read")
		return ""
	}
	if err == nil || tk != nil {
		return fmt.Sprintf("%s (at %d of %d) gives a tokenizer %v, error %v", what, at, len(data), tk != nil, err)
	}
	if strings.HasSuffix(what, "reader") {
		c.Note("broken readers refused")
		return ""
	}
	if cfg, err := tokenizer.ConfigFromFile(f); err == nil || cfg != nil {
		return fmt.Sprintf("%s: ConfigFromFile gives %v, error %v", what, cfg != nil, err)
	}
	c.Note("broken files refused")
	return ""
}

// sections lists the types of components in a configuration.
func sections(j map[string]any) map[string]bool {
	out := map[string]bool{}
	var walk func(s string, v any)
	walk = func(s string, v any) {
		x, ok := v.(map[string]any)
		if !ok {
			return
		}
		if t, ok := x["type"].(string); ok {
			out[s+" "+t] = true
		}
		for _, k := range []string{"normalizers", "pretokenizers", "processors", "decoders"} {
			if l, ok := x[k].([]any); ok {
				for _, e := range l {
					walk(s, e)
				}
			}
		}
	}
	for _, k := range []string{"normalizer", "pre_tokenizer", "post_processor", "decoder", "model"} {
		walk(k, j[k])
	}
	for _, k := range []string{"added_tokens", "truncation", "padding"} {
		if j[k] != nil {
			out[k] = true
		}
	}
	return out
}
