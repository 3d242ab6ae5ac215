package props

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"unicode"

	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretrained"
	"github.com/sugarme/tokenizer/spm"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "P26", Quick: 6000, Thorough: 300000,
		Rule: "each case does one of: (a) build the binary form of a random map (own double-array builder) and compare lookups, prefix searches and the normalization and alignments of several texts, also after other normalizers, with the entries; (b) the same over a part of the published nmt_nfkc map, whose entries an own reader lists (all of them are swept); (c) load a truncated, changed or random binary form: an error or a map, never a crash, and what it gives is made of its replacements; non-trivial: the normalization changed the text, or the map was malformed",
		Run: func(c *core.C) {
			switch {
			case c.Idx == 0:
				spmMarks(c)
			case c.Idx%20 == 0:
				spmPublished(c)
			case c.Idx%4 == 0:
				spmBroken(c)
			default:
				spmRandom(c)
			}
		}})
}

// spmMap checks one loaded map against its entries.
func spmMap(c *core.C, pc *spm.Precompiled, m ref.CharsMap, name string, texts []string) bool {
	r := c.R
	norm := &normalizer.Precompiled{Precompiled: pc}
	for _, t := range texts {
		desc := fmt.Sprintf("%s on %+q", name, t)
		c.Detail("%s", desc)
		// lookups
		parts := m.Parts(t)
		for _, p := range append(parts, t) {
			want, found := m.Lookup(p)
			got, ok := pc.Lookup(p)
			if ok != found || got != want {
				c.Fail("lookup", "%s: lookup of %+q gives %+q %v, not %+q %v", desc, p, got, ok, want, found)
				return false
			}
			if x := pc.Transform(p); x != want {
				c.Fail("transform", "%s: transform of %+q gives %+q, not %+q", desc, p, x, want)
				return false
			}
			var vals []string
			for i := 1; i <= len(p); i++ {
				if v, ok := m[p[:i]]; ok {
					vals = append(vals, v)
				}
			}
			var gots []string
			for _, i := range pc.Trie.CommonPrefixSearch([]byte(p)) {
				v, _, _ := strings.Cut(pc.Normalized[i:], "\x00")
				gots = append(gots, v)
			}
			if !sameStrings(gots, vals) {
				c.Fail("prefixes", "%s: the entries %+q begins with are %+q, not %+q", desc, p, gots, vals)
				return false
			}
			c.Note("lookups")
		}
		// normalization, of a fresh text or one normalized before
		n := normalizer.NewNormalizedFrom(t)
		s := ref.New(t)
		if r.Intn(3) == 0 {
			x := gen.Normalizer(r, false)
			desc += " after " + x.Name
			c.Detail("%s", desc)
			var err error
			if n, err = x.Real.Normalize(n); err != nil {
				c.Fail("error", "%s: %v", desc, err)
				return false
			}
			s = x.Ref(s)
		}
		before := s.String()
		want := m.Norm()(s)
		c.Eval(desc, before != want.String())
		got, err := norm.Normalize(n)
		if err != nil {
			c.Fail("error", "%s: %v", desc, err)
			return false
		}
		if msg := (nsState{got, want, 0, len(t)}).check(t); msg != "" {
			c.Fail("normalize", "%s: %s", desc, msg)
			return false
		}
		c.NoteN("characters normalized", len(want))
		// the text form writes marks as code points (a known finding), others are the same
		if !strings.ContainsFunc(before+want.String(), func(x rune) bool { return unicode.Is(unicode.Mn, x) }) {
			if x := pc.NormalizeString(before); x != want.String() {
				c.Fail("string", "%s: NormalizeString gives %+q, not %+q", desc, x, want.String())
				return false
			}
			c.Note("texts without marks")
		}
	}
	return true
}

func spmRandom(c *core.C) {
	r := c.R
	var texts []string
	for i := 0; i < 4; i++ {
		texts = append(texts, gen.Any(r))
	}
	m := gen.CharsMap(r, texts...)
	for i := r.Intn(4); i > 0; i-- {
		for k, v := range gen.CharsMap(r, texts...) {
			m[k] = v
		}
	}
	data := m.Bytes(r)
	given := append([]byte{}, data...)
	name := fmt.Sprintf("map %+q", m)
	if !reflect.DeepEqual(ref.ReadCharsMap(data), m) && !(len(m) == 0) {
		c.Fail("harness", "the reader does not find the entries of %s", name)
		return
	}
	c.Sample("map", name)
	var pc *spm.Precompiled
	var err error
	if r.Intn(2) == 0 {
		pc, err = spm.NewPrecompiledFrom(given)
	} else {
		var n normalizer.Normalizer
		n, err = pretrained.CreateNormalizer(map[string]any{"type": "Precompiled", "precompiled_charsmap": spm.AsBase64(given)})
		if err == nil {
			pc = n.(*normalizer.Precompiled).Precompiled
		}
	}
	if err != nil {
		c.Fail("load", "%s: %v", name, err)
		return
	}
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b strings.Builder
	for _, k := range keys {
		b.WriteString(gen.Pick(r, k, k, k+k, gen.Word(r)))
		if r.Intn(6) == 0 {
			b.WriteString(gen.Pick(r, "\u0301", " ", "a", "\u200d"))
		}
	}
	texts = append(texts, b.String(), gen.Any(r, keys...), "")
	if len(keys) > 0 {
		k := gen.Pick(r, keys...)
		rs := []rune(k)
		texts = append(texts, k, string(rs[:r.Intn(len(rs)+1)]), k+"\x00"+k)
	}
	c.NoteN("entries built", len(m))
	if !spmMap(c, pc, m, name, texts) {
		return
	}
	if !reflect.DeepEqual(given, data) {
		c.Fail("input", "%s: the binary form was changed", name)
	}
}

var published = sync.OnceValues(func() (ref.CharsMap, []string) {
	m := ref.ReadCharsMap(spm.NmtNfkc())
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return m, keys
})

func spmPublished(c *core.C) {
	r := c.R
	m, keys := published()
	pc, err := spm.NewPrecompiledFrom(spm.NmtNfkc())
	if err != nil {
		c.Fail("load", "the published map: %v", err)
		return
	}
	// all the entries are covered once by the cases of a quick run
	n := (6000 / 20)
	from := c.Idx / 20 % n * len(keys) / n
	to := (c.Idx/20%n + 1) * len(keys) / n
	var texts []string
	for i := from; i < to; i++ {
		texts = append(texts, keys[i])
	}
	c.NoteN("published entries swept", to-from)
	for i := 0; i < 3; i++ {
		var b strings.Builder
		for j := r.Intn(8); j >= 0; j-- {
			b.WriteString(gen.Pick(r, gen.Pick(r, keys...), gen.Word(r), " "))
		}
		texts = append(texts, b.String())
	}
	spmMap(c, pc, m, fmt.Sprintf("the published map of %d entries", len(m)), texts)
}

// spmBroken loads what is not a proper map.
func spmBroken(c *core.C) {
	r := c.R
	text := gen.Seldom(r, 60)
	m := gen.CharsMap(r, text)
	data := m.Bytes(r)
	kind := gen.Pick(r, "truncated", "changed", "size", "random", "text")
	mustFail := false
	switch kind {
	case "truncated":
		data = data[:r.Intn(len(data)+1)]
		mustFail = len(data) < 4 || uint64(len(data))-4 < uint64(binary.LittleEndian.Uint32(data))
	case "changed":
		for i := r.Intn(40); i >= 0; i-- {
			data[4+r.Intn(len(data)-4)] = byte(r.Intn(256))
		}
	case "size":
		binary.LittleEndian.PutUint32(data, gen.Pick(r, 0, 1, 2, 3, 4, 5, 7, uint32(len(data)-4), uint32(len(data)-3), uint32(r.Intn(len(data))), 1<<31, 1<<32-1, 1<<32-4))
		mustFail = uint64(len(data))-4 < uint64(binary.LittleEndian.Uint32(data))
	case "random":
		n := r.Intn(400)
		data = make([]byte, 4+4*n+r.Intn(50))
		r.Read(data)
		binary.LittleEndian.PutUint32(data, uint32(4*n))
	case "text":
		// replacements without an end
		for i := len(data) - 1; i >= 0 && (data[i] == 0 || r.Intn(2) == 0) && i > len(data)-30; i-- {
			data[i] = byte(r.Intn(256))
		}
	}
	desc := fmt.Sprintf("%s map of %d bytes %.200q on %+q", kind, len(data), data, text)
	c.Detail("%s", desc)
	c.Eval(desc, true)
	c.Note("malformed: " + kind)
	c.Guard("panic", desc, func() {
		pc, err := spm.NewPrecompiledFrom(data)
		if err != nil {
			if pc != nil {
				c.Fail("error-and-map", "%s: both a map and an error", desc)
			}
			return
		}
		if mustFail {
			c.Fail("no-error", "%s: no error for a map shorter than it says", desc)
			return
		}
		c.Note("malformed maps loaded")
		for _, p := range m.Parts(text) {
			v, ok := pc.Lookup(p)
			if !strings.Contains(pc.Normalized, v) || !ok && v != "" {
				c.Fail("invented", "%s: %+q is replaced by %+q (%v), which is not in the map", desc, p, v, ok)
				return
			}
		}
		n, err := (&normalizer.Precompiled{Precompiled: pc}).Normalize(normalizer.NewNormalizedFrom(text))
		if err != nil {
			return
		}
		al := n.Alignments()
		if len(al) != len(n.GetNormalized()) {
			c.Fail("structure", "%s: %d alignments for %d bytes", desc, len(al), len(n.GetNormalized()))
			return
		}
		last := 0
		for _, a := range al {
			if a[0] < last || a[1] < a[0] || a[1] > len(text) {
				c.Fail("structure", "%s: alignments %v", desc, al)
				return
			}
			last = a[0]
		}
		pc.NormalizeString(text)
	})
}

// spmMarks: NormalizeString writes combining marks as text like "U+0E48".
func spmMarks(c *core.C) {
	c.Eval("marks", true)
	m := ref.CharsMap{"q": "r"}
	pc, err := spm.NewPrecompiledFrom(m.Bytes(c.R))
	if err != nil {
		c.Fail("load", "%v", err)
		return
	}
	for t, known := range map[string]string{"ไม่": "ไมU+0E48", "qx\u0323": "rxU+0323"} {
		want := m.Norm()(ref.New(t)).String()
		switch got := pc.NormalizeString(t); got {
		case want:
		case known:
			c.Fail("string-marks", "NormalizeString of %+q gives %+q, not %+q", t, got, want)
		default:
			c.Fail("string", "NormalizeString of %+q gives %+q, not %+q", t, got, want)
		}
	}
}
