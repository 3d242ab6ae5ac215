package props

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/sugarme/tokenizer/normalizer"
	"golang.org/x/text/unicode/norm"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "P08", Quick: 20000, Thorough: 200000,
		Rule: "each case is a random history of edits, slices and splits of a normalized string, with the content, both alignments and range conversions compared with a reference after every step; non-trivial: at least two edits that changed something",
		Run:  normHistory})
	core.Register(&core.Prop{ID: "P09", Quick: 8704, Thorough: 87040,
		Rule: "each case applies a random normalizer to several texts, and every single-character normalizer to one of the 8704 blocks of Unicode (all of them are swept); content and alignments are compared with a reference built on x/text and the Unicode tables; non-trivial: the normalizer changed the text",
		Run:  also(normalizers, 20, gen.Opts{Must: "norm", NoPost: true})})
}

// nsState is a real normalized string with its reference.
type nsState struct {
	n      *normalizer.NormalizedString
	s      ref.Str // offsets in the root text
	lo, hi int     // the original of the slice, in the root text
}

// rel are the alignments the reference expects, relative to the slice.
func (st nsState) rel() [][]int {
	out := [][]int{}
	for _, a := range st.s.Aligns() {
		out = append(out, []int{a[0] - st.lo, a[1] - st.lo})
	}
	return out
}

// invert is for each byte of the original the range of normalized bytes aligned with it.
func invert(al [][]int, n int) [][]int {
	out := [][]int{}
	last := 0
	for j := 0; j < n; j++ {
		first, end := -1, -1
		for i, a := range al {
			if a[0] <= j && j < a[1] {
				if first < 0 {
					first = i
				}
				end = i + 1
			}
		}
		if first < 0 {
			first, end = last, last
		}
		out = append(out, []int{first, end})
		last = end
	}
	return out
}

func (st nsState) check(root string) string {
	n := st.n
	if got := n.GetOriginal(); got != root[st.lo:st.hi] {
		return "original: " + core.Diff(got, root[st.lo:st.hi])
	}
	want := st.s.String()
	if got := n.GetNormalized(); got != want {
		return "normalized: " + core.Diff(got, want)
	}
	if n.Len() != len(want) || n.LenOriginal() != st.hi-st.lo || n.IsEmpty() != (want == "") {
		return fmt.Sprintf("lengths %d %d %v", n.Len(), n.LenOriginal(), n.IsEmpty())
	}
	if n.Shift() != st.lo || !eqInts(n.OffsetsOriginal(), []int{st.lo, st.hi}) {
		return fmt.Sprintf("shift %d, original offsets %v, want [%d %d]", n.Shift(), n.OffsetsOriginal(), st.lo, st.hi)
	}
	al := st.rel()
	got := append([][]int{}, n.Alignments()...)
	if !reflect.DeepEqual(got, al) {
		return fmt.Sprintf("alignments of %+q: got %v want %v", want, got, al)
	}
	goto2 := append([][]int{}, n.AlignmentsOriginal()...)
	if inv := invert(al, st.hi-st.lo); !reflect.DeepEqual(goto2, inv) {
		return fmt.Sprintf("alignments of the original %+q, normalized %+q: got %v want %v", root[st.lo:st.hi], want, goto2, inv)
	}
	return ""
}

// convert checks one random range in both directions.
func (st nsState) convert(r *rand.Rand) string {
	for _, on := range []normalizer.IndexOn{normalizer.NormalizedTarget, normalizer.OriginalTarget} {
		al := st.n.Alignments()
		here, there := st.n.GetNormalized(), st.n.GetOriginal()
		if on == normalizer.OriginalTarget {
			al = st.n.AlignmentsOriginal()
			here, there = there, here
		}
		if len(al) == 0 {
			// nothing stands for everything of the other side
			if got := st.n.ConvertOffset(normalizer.NewRange(0, 0, on)); got == nil || !eqInts(got.Values(), []int{0, len(there)}) || got.On() == on {
				return fmt.Sprintf("the empty range of %+q/%+q (%v) converts to %v", here, there, on, got)
			}
			continue
		}
		b := r.Intn(len(al))
		e := b + 1 + r.Intn(len(al)-b)
		want := []int{al[b][0], al[e-1][1]}
		got := st.n.ConvertOffset(normalizer.NewRange(b, e, on))
		if got == nil || !eqInts(got.Values(), want) {
			return fmt.Sprintf("ConvertOffset(%d,%d,%v) of %+q/%+q: got %v want %v", b, e, on, here, there, got.Values(), want)
		}
		if got.On() == on {
			return "the converted range has the referential of the given one"
		}
		var x, y string
		if on == normalizer.NormalizedTarget {
			x, y = st.n.Range(normalizer.NewRange(b, e, on)), st.n.RangeOriginal(normalizer.NewRange(b, e, on))
		} else {
			y, x = st.n.Range(normalizer.NewRange(b, e, on)), st.n.RangeOriginal(normalizer.NewRange(b, e, on))
		}
		if x != here[b:e] || y != there[want[0]:want[1]] {
			return fmt.Sprintf("ranges (%d,%d,%v) of %+q/%+q: %+q and %+q", b, e, on, here, there, x, y)
		}
		if o := st.n.ConvertOffset(normalizer.NewRange(len(al)+1, len(al)+3, on)); o != nil {
			return fmt.Sprintf("a range outside converts to %v", o.Values())
		}
	}
	return ""
}

// slices slices at any bytes of either side.
func (st nsState) slices(c *core.C) string {
	r := c.R
	n := st.n
	norm, orig := n.GetNormalized(), n.GetOriginal()
	for _, on := range []normalizer.IndexOn{normalizer.NormalizedTarget, normalizer.OriginalTarget} {
		here, al := norm, n.Alignments()
		if on == normalizer.OriginalTarget {
			here, al = orig, n.AlignmentsOriginal()
		}
		if here == "" {
			continue
		}
		b := r.Intn(len(here))
		e := b + 1 + r.Intn(len(here)-b)
		if r.Intn(3) == 0 {
			e += r.Intn(3)
		}
		what := fmt.Sprintf("the slice %d,%d (%v) of %+q/%+q", b, e, on, norm, orig)
		got := n.Slice(normalizer.NewRange(b, e, on))
		e = min(e, len(here)) // ranges end with the text
		good := utf8.RuneStart(here[b]) && (e == len(here) || utf8.RuneStart(here[e]))
		if good != (got != nil) {
			return fmt.Sprintf("%s: given %v, want %v", what, got != nil, good)
		}
		if !good {
			c.Note("slices refused")
			continue
		}
		nb, ne, ob, oe := b, e, al[b][0], al[e-1][1]
		if on == normalizer.OriginalTarget {
			nb, ne, ob, oe = ob, oe, nb, ne
		}
		if got.GetNormalized() != norm[nb:ne] || got.GetOriginal() != orig[ob:oe] {
			return fmt.Sprintf("%s is %+q/%+q, not %+q/%+q", what, got.GetNormalized(), got.GetOriginal(), norm[nb:ne], orig[ob:oe])
		}
		if o := n.OffsetsOriginal(); !eqInts(got.OffsetsOriginal(), []int{o[0] + ob, o[0] + oe}) || got.Shift() != o[0]+ob {
			return fmt.Sprintf("%s is at %v (%d) of a text at %v", what, got.OffsetsOriginal(), got.Shift(), o)
		}
		ga := got.Alignments()
		if len(ga) != ne-nb {
			return fmt.Sprintf("%s has %d alignments", what, len(ga))
		}
		whole := n.Alignments()
		for i, a := range ga {
			w := whole[nb+i]
			if want := []int{min(max(w[0], ob), oe) - ob, min(max(w[1], ob), oe) - ob}; !eqInts(a, want) {
				return fmt.Sprintf("%s: alignment %d is %v, not %v", what, i, a, want)
			}
		}
		if len(got.AlignmentsOriginal()) != oe-ob {
			return fmt.Sprintf("%s has %d alignments of the original", what, len(got.AlignmentsOriginal()))
		}
		for i, a := range got.AlignmentsOriginal() {
			if a[0] < 0 || a[0] > a[1] || a[1] > ne-nb {
				return fmt.Sprintf("%s: alignment %d of the original is %v", what, i, a)
			}
		}
		c.Note("slices at any byte")
	}
	return ""
}

var filters = []struct {
	n string
	f func(rune) bool
}{
	{"letters", unicode.IsLetter}, {"odd", func(r rune) bool { return r%2 == 1 }}, {"not space", func(r rune) bool { return !unicode.IsSpace(r) }},
	{"not mark", func(r rune) bool { return !unicode.IsMark(r) }}, {"ascii", func(r rune) bool { return r < 128 }}, {"none", func(rune) bool { return false }},
	{"not a", func(r rune) bool { return r != 'a' }},
}

var maps = []struct {
	n string
	f func(rune) rune
}{
	{"widen", func(r rune) rune {
		if r < 128 {
			return r + 0xfee0
		}
		return r
	}}, {"x", func(rune) rune { return 'x' }}, {"title", unicode.ToTitle}, {"space", func(r rune) rune {
		if unicode.IsSpace(r) {
			return '▁'
		}
		return r
	}},
}

func normHistory(c *core.C) {
	r := c.R
	root := gen.Seldom(r, 400)
	if r.Intn(3) == 0 {
		root = strings.Repeat(gen.Word(r), 1+r.Intn(3)) + gen.Word(r)
	}
	if len(root) > 200 {
		root = string([]rune(root)[:40])
	}
	st := nsState{normalizer.NewNormalizedFrom(root), ref.New(root), 0, len(root)}
	hist := []string{fmt.Sprintf("%+q", root)}
	changes := 0
	fail := func(key, s string) { c.Fail(key, "%s\nafter %s", s, strings.Join(hist, " ; ")) }
	if s := st.check(root); s != "" {
		fail("new", s)
		return
	}
	for step := 1 + r.Intn(7); step > 0; step-- {
		old := st.s
		name := "edit"
		both := func(what string, f func() *normalizer.NormalizedString, n ref.Norm) {
			name = what
			hist = append(hist, what)
			c.Detail("%s", strings.Join(hist, " ; "))
			st.n = f()
			st.s = n(st.s)
		}
		n := st.n
		switch r.Intn(16) {
		case 0:
			type form struct {
				n string
				f norm.Form
				g func() *normalizer.NormalizedString
			}
			x := gen.Pick(r, form{"NFC", norm.NFC, n.NFC}, form{"NFD", norm.NFD, n.NFD}, form{"NFKC", norm.NFKC, n.NFKC}, form{"NFKD", norm.NFKD, n.NFKD})
			both(x.n, x.g, ref.Form(x.f))
		case 1:
			x := gen.Pick(r, filters...)
			both("filter "+x.n, func() *normalizer.NormalizedString { return n.Filter(x.f) }, ref.FilterR(x.f))
		case 2:
			p := gen.Pick(r, "▁", "ab", "é", "  ", "", "x中")
			both("prepend "+p, func() *normalizer.NormalizedString { return n.Prepend(p) }, ref.Prepend(p))
		case 3:
			p := gen.Pick(r, "▁", "ab", "é", "  ", "", "x中")
			both("append "+p, func() *normalizer.NormalizedString { return n.Append(p) }, ref.Append(p))
		case 4:
			x := gen.Pick(r, maps...)
			if r.Intn(2) == 0 {
				both("map "+x.n, func() *normalizer.NormalizedString { return n.Map(x.f) }, ref.MapR(x.f))
			} else {
				both("foreach "+x.n, func() *normalizer.NormalizedString { return n.ForEach(x.f) }, ref.MapR(x.f))
			}
		case 5:
			both("lowercase", n.Lowercase, ref.Lowercase)
		case 6:
			both("uppercase", n.Uppercase, ref.Uppercase)
		case 7:
			both("remove accents", n.RemoveAccents, ref.StripAccents)
		case 8:
			both("lstrip", n.LStrip, ref.Strip(true, false))
		case 9:
			both("rstrip", n.RStrip, ref.Strip(false, true))
		case 10:
			both("strip", n.Strip, ref.Strip(true, true))
		case 11, 12:
			p := gen.Pattern(r, false)
			content := gen.Pick(r, "", "x", "▁", "éà", "  ", "中文字", "$1")
			both(fmt.Sprintf("replace %s by %q", p.Name, content), func() *normalizer.NormalizedString { return n.Replace(p.Real, content) }, ref.Replace(p.Ref, content))
		case 13:
			// a slice
			name = "slice"
			al := st.n.Alignments()
			rs := []rune(st.n.GetNormalized())
			if len(rs) == 0 {
				continue
			}
			b := r.Intn(len(rs))
			e := b + 1 + r.Intn(len(rs)-b)
			bb, be := len(string(rs[:b])), len(string(rs[:e]))
			hist = append(hist, fmt.Sprintf("slice normalized %d,%d", bb, be))
			c.Detail("%s", strings.Join(hist, " ; "))
			parent := st
			got := st.n.Slice(normalizer.NewRange(bb, be, normalizer.NormalizedTarget))
			if got == nil {
				fail("slice", "no slice")
				return
			}
			if bb+1 < be && len(string(rs[b])) > 1 {
				if x := st.n.Slice(normalizer.NewRange(bb+1, be, normalizer.NormalizedTarget)); x != nil {
					fail("slice", "a slice that starts inside a character")
					return
				}
			}
			st = nsState{got, append(ref.Str{}, st.s[b:e]...), st.lo + al[bb][0], st.lo + al[be-1][1]}
			// editing the slice leaves the whole as it was
			got2 := parent.n.Slice(normalizer.NewRange(bb, be, normalizer.NormalizedTarget))
			got2.Uppercase().Prepend("zz").Append("q")
			if s := parent.check(root); s != "" {
				fail("slice-edit", "editing a slice changed the whole: "+s)
				return
			}
			c.Note("slices")
		case 14:
			name = "split"
			p := gen.SplitPattern(r, false)
			bi := r.Intn(len(splitBehaviors))
			hist = append(hist, fmt.Sprintf("split %s %d", p.Name, bi))
			c.Detail("%s", strings.Join(hist, " ; "))
			got := st.n.Split(p.Real, splitBehaviors[bi])
			var want []ref.Str
			for _, w := range ref.SplitBy(st.s, p.Ref, bi) {
				if len(w) > 0 {
					want = append(want, w)
				}
			}
			var gs, ws []string
			var keep []normalizer.NormalizedString
			for i := range got {
				if !got[i].IsEmpty() {
					gs = append(gs, got[i].GetNormalized())
					keep = append(keep, got[i])
				}
			}
			for _, w := range want {
				ws = append(ws, w.String())
			}
			if !reflect.DeepEqual(gs, ws) {
				fail("split", core.Diff(gs, ws))
				return
			}
			c.NoteN("pieces of splits", len(ws))
			if len(keep) > 0 {
				for i := range keep {
					w := want[i]
					x := nsState{&keep[i], w, w[0].S, w[len(w)-1].E}
					if s := x.check(root); s != "" {
						fail("split-piece", fmt.Sprintf("piece %d %+q: %s", i, ws[i], s))
						return
					}
				}
				i := r.Intn(len(keep))
				w := want[i]
				hist = append(hist, fmt.Sprintf("take piece %d", i))
				st = nsState{&keep[i], append(ref.Str{}, w...), w[0].S, w[len(w)-1].E}
			}
		default:
			// a transformation written out, of a part or of all
			lo, hi := 0, len(st.s)
			if r.Intn(2) == 0 {
				lo = r.Intn(len(st.s) + 1)
				hi = lo + r.Intn(len(st.s)-lo+1)
			}
			var cm []normalizer.ChangeMap
			out := append(ref.Str{}, st.s[:lo]...)
			skip := 0
			for lo+skip < hi && r.Intn(5) == 0 {
				skip++
			}
			for i := lo + skip; i < hi; {
				ch := rune(gen.Pick(r, 'a', 'é', '中', '😀', st.s[i].R))
				if r.Intn(4) == 0 {
					at := ref.Ch{R: ch, S: st.lo, E: st.lo}
					if i > 0 {
						at.S, at.E = st.s[i-1].S, st.s[i-1].E
					}
					out = append(out, at)
					cm = append(cm, normalizer.ChangeMap{RuneVal: string(ch), Changes: 1})
					continue
				}
				k := 0
				for i+k+1 < hi && r.Intn(4) == 0 {
					k++
				}
				out = append(out, ref.Ch{R: ch, S: st.s[i].S, E: st.s[i].E})
				cm = append(cm, normalizer.ChangeMap{RuneVal: string(ch), Changes: -k})
				i += k + 1
			}
			out = append(out, st.s[hi:]...)
			if lo == 0 && hi == len(st.s) && r.Intn(2) == 0 {
				both(fmt.Sprintf("transform %v skip %d", cm, skip), func() *normalizer.NormalizedString { return n.Transform(cm, skip) }, func(ref.Str) ref.Str { return out })
				break
			}
			rg := normalizer.NewRange(len(st.s[:lo].String()), len(st.s[:hi].String()), normalizer.NormalizedTarget)
			if hi > lo && r.Intn(2) == 0 {
				// the same part, by where it comes from
				o := normalizer.NewRange(st.s[lo].S-st.lo, st.s[hi-1].E-st.lo, normalizer.OriginalTarget)
				if b := n.ConvertOffset(o); b != nil && eqInts(b.Values(), rg.Values()) {
					rg = o
					c.Note("parts transformed by their place in the original")
				}
			}
			c.Note("parts transformed")
			both(fmt.Sprintf("transform %v skip %d of %v", cm, skip, rg), func() *normalizer.NormalizedString { return n.TransformRange(rg, cm, skip) }, func(ref.Str) ref.Str { return out })
		}
		if old.String() != st.s.String() {
			changes++
		}
		c.Note("steps: " + strings.Fields(name)[0])
		if s := st.check(root); s != "" {
			fail("history", s)
			return
		}
		if s := st.convert(r); s != "" {
			fail("convert", s)
			return
		}
		if s := st.slices(c); s != "" {
			fail("slices", s)
			return
		}
	}
	c.Eval(strings.Join(hist, " ; "), changes > 1)
	c.Sample("history", strings.Join(hist, " ; "))
	if r.Intn(8) == 0 {
		st.n.Clear()
		if st.n.GetNormalized() != "" || len(st.n.Alignments()) != 0 || st.n.GetOriginal() != root[st.lo:st.hi] {
			fail("clear", fmt.Sprintf("Clear leaves %+q, original %+q", st.n.GetNormalized(), st.n.GetOriginal()))
		}
	}
}

var splitBehaviors = []normalizer.SplitDelimiterBehavior{ref.Removed: normalizer.RemovedBehavior, ref.Isolated: normalizer.IsolatedBehavior,
	ref.MergedWithPrevious: normalizer.MergedWithPreviousBehavior, ref.MergedWithNext: normalizer.MergedWithNextBehavior, ref.Contiguous: normalizer.ContiguousBehavior}

// normalizers compares single normalizers with their reference.
func normalizers(c *core.C) {
	r := c.R
	x := gen.Normalizer(r, false)
	try := func(text string) bool {
		c.Detail("%s on %+q", x.Name, text)
		got, err := x.Real.Normalize(normalizer.NewNormalizedFrom(text))
		if err != nil {
			c.Fail("error", "%s of %+q: %v", x.Name, text, err)
			return false
		}
		want := x.Ref(ref.New(text))
		c.Eval(x.Name+fmt.Sprintf(" %+q", text), want.String() != text)
		st := nsState{got, want, 0, len(text)}
		if s := st.check(text); s != "" {
			c.Fail("normalize", "%s of %+q: %s", x.Name, text, s)
			return false
		}
		c.Note("texts normalized")
		return true
	}
	for k := 0; k < 4; k++ {
		if !try(gen.Seldom(r, 400)) {
			return
		}
	}
	if c.Idx%16 == 0 {
		failingNormalizer(c, x, gen.Any(r))
	}
	// a block of characters, each of Unicode in one of the cases, through every normalizer
	// of single characters
	const block = 128
	var sb strings.Builder
	for i := 0; i < block; i++ {
		ch := rune(c.Idx%(0x110000/block)*block + i)
		if ch >= 0xd800 && ch < 0xe000 {
			continue
		}
		if i%7 == 3 {
			sb.WriteString("a")
		}
		sb.WriteRune(ch)
		sp, pu, cjk := ref.BertSpace(ch), ref.Punct(ch), ref.CJK(ch)
		if normalizer.IsWhitespace(ch) != sp || normalizer.IsBertWhitespace(ch) != sp || normalizer.IsPunctuation(ch) != pu ||
			normalizer.IsBertPunctuation(ch) != pu || normalizer.IsChinese(ch) != cjk {
			c.Fail("class", "%U: space %v, punctuation %v, Chinese %v, not as the library says", ch, sp, pu, cjk)
			return
		}
		c.Note("characters swept")
	}
	text := sb.String()
	bert := [4]bool{r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0}
	for _, y := range []gen.Norm{
		{Name: "NFC", Real: normalizer.NewNFC(), Ref: ref.Form(norm.NFC)}, {Name: "NFD", Real: normalizer.NewNFD(), Ref: ref.Form(norm.NFD)},
		{Name: "NFKC", Real: normalizer.NewNFKC(), Ref: ref.Form(norm.NFKC)}, {Name: "NFKD", Real: normalizer.NewNFKD(), Ref: ref.Form(norm.NFKD)},
		{Name: "lowercase", Real: normalizer.Lowercase(), Ref: ref.Lowercase}, {Name: "stripaccents", Real: normalizer.NewStripAccents(), Ref: ref.StripAccents},
		{Name: fmt.Sprintf("bert%v", bert), Real: normalizer.NewBertNormalizer(bert[0], bert[1], bert[2], bert[3]), Ref: ref.Bert(bert[0], bert[1], bert[2], bert[3])},
		{Name: "bert", Real: normalizer.NewBertNormalizer(true, false, true, false), Ref: ref.Bert(true, false, true, false)},
	} {
		got, err := y.Real.Normalize(normalizer.NewNormalizedFrom(text))
		if err != nil {
			c.Fail("error", "%s of %+q: %v", y.Name, text, err)
			return
		}
		want := y.Ref(ref.New(text))
		c.Eval(y.Name+text, want.String() != text)
		if got.GetNormalized() != want.String() || !reflect.DeepEqual(append([][]int{}, got.Alignments()...), append([][]int{}, want.Aligns()...)) {
			c.Fail("sweep", "%s of %+q: %s\naligned %v\n   want %v", y.Name, text, core.Diff(got.GetNormalized(), want.String()), got.Alignments(), want.Aligns())
			return
		}
		c.Note("blocks compared")
	}
	// normalizing what is normalized changes nothing, for those that promise it
	if strings.HasPrefix(x.Name, "NF") || x.Name == "stripaccents" || strings.HasPrefix(x.Name, "strip(") {
		t := gen.Any(r)
		a, err := x.Real.Normalize(normalizer.NewNormalizedFrom(t))
		if err != nil {
			c.Fail("error", "%v", err)
			return
		}
		once := a.GetNormalized()
		b, err := x.Real.Normalize(normalizer.NewNormalizedFrom(once))
		if err != nil || b.GetNormalized() != once {
			c.Fail("idempotent", "%s of %+q gives %+q, then %+q", x.Name, t, once, b.GetNormalized())
		}
		c.Note("idempotence")
	}
}
