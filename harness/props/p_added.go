package props

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "P04", Quick: 1500, Thorough: 60000,
		Rule: "each case makes a random tokenizer and interleaves additions of plain and special tokens (new, repeated, empty, overlapping, already in the model) with all lookups over all tokens seen so far and with encodings of texts full of them; compared with a reference vocabulary after every step; non-trivial: at least one token was newly added",
		Run:  also(addedHistory, 4, gen.Opts{NoPost: true, Must: "added"})})
}

// tokenPool makes tokens that overlap one another and the texts.
func tokenPool(r *rand.Rand, texts []string, vocab map[string]int) []string {
	pool := []string{"a", "ab", "abc", "bc", "b", "[CLS]", "[MASK]", "[MASK", "<s>", "s>", "é", "É", "中", "中文", "a b", " a", "a ", "the", "The", "new token", "\n", "..", ".", "aa", "aba", "a a", "b ab", "-a-", "ab ab ab", "٣", "e\u0301", "\u200d"}
	for i := 0; i < 4; i++ {
		if rs := []rune(gen.Pick(r, texts...)); len(rs) > 0 {
			at := r.Intn(len(rs))
			pool = append(pool, string(rs[at:min(len(rs), at+1+r.Intn(4))]))
		}
	}
	var vs []string
	for v := range vocab {
		vs = append(vs, v)
	}
	sort.Strings(vs)
	for i := 0; i < 3 && len(vs) > 0; i++ {
		pool = append(pool, gen.Pick(r, vs...))
	}
	r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	return append(pool[:min(len(pool), 5+r.Intn(10))], "")
}

func addedHistory(c *core.C) {
	r := c.R
	p := gen.Make(r, gen.Opts{NoAdded: r.Intn(3) > 0})
	if p.Model.Uni != nil && r.Intn(2) == 0 {
		return
	}
	pool := tokenPool(r, p.Texts, p.Model.Vocab)
	av := p.Ref.Added
	hist := p.String()
	known := map[string]int{} // ids once given, which never change
	for step := 0; step < 7 && !c.Failed(); step++ {
		call := gen.AddedCall{Special: r.Intn(2) == 0}
		for i := r.Intn(4); i >= 0; i-- {
			t := gen.Pick(r, pool...)
			if p.Model.Uni != nil && strings.Contains("<unk>", t) && t != "" {
				continue
			}
			a := ref.Added{Content: t, Single: r.Intn(4) == 0, LStrip: r.Intn(4) == 0, RStrip: r.Intn(4) == 0, IsNorm: r.Intn(3) == 0}
			n := t
			if a.IsNorm && p.Ref.Norm != nil && t != "" {
				n = p.Ref.Norm(ref.New(t)).String()
			}
			if strings.TrimFunc(t, ref.WideSpace) != t || strings.TrimFunc(n, ref.WideSpace) != n {
				a.LStrip, a.RStrip = false, false // which whitespace is its own?
			}
			call.Toks = append(call.Toks, a)
		}
		if r.Intn(300) == 0 {
			// a great many of them
			n := 100 + r.Intn(900)
			for i := 0; i < n; i++ {
				t := fmt.Sprintf("%s%d", gen.Pick(r, "<extra_", "q", "é"), i)
				call.Toks = append(call.Toks, ref.Added{Content: t, Single: r.Intn(3) == 0, IsNorm: r.Intn(3) == 0})
				if r.Intn(n/8) == 0 {
					pool = append(pool, t)
				}
			}
			pool = append(pool, call.Toks[len(call.Toks)-1].Content)
			c.Note("more than 100 tokens added at once")
		}
		hist += fmt.Sprintf("; add(special=%v) %+v", call.Special, call.Toks)
		c.Detail("%s", hist)
		got, want := gen.AddTo(p.Real, av, call)
		c.Eval(hist, want > 0)
		if got != want {
			c.Fail("count", "adding counted %d, not %d: %s", got, want, hist)
			return
		}
		c.NoteN("tokens newly added", want)
		// lookups
		full := gen.Copy(p.Model.Vocab)
		for t, id := range av.Map {
			full[t] = id
		}
		real := p.Real.GetVocab(true)
		if d := diffVocab(real, full); d != "" {
			c.Fail("vocab", "vocabulary with added tokens: %s: %s", d, hist)
			return
		}
		if d := diffVocab(p.Real.GetVocab(false), p.Model.Vocab); d != "" {
			c.Fail("vocab", "vocabulary of the model: %s: %s", d, hist)
			return
		}
		if a, b := p.Real.GetVocabSize(true), p.Real.GetVocabSize(false); a != len(full) || b != len(p.Model.Vocab) {
			c.Fail("size", "sizes %d and %d, not %d and %d: %s", a, b, len(full), len(p.Model.Vocab), hist)
			return
		}
		sp := p.Real.GetSpecialTokens()
		var wsp []string
		for t := range av.SpecialSet {
			wsp = append(wsp, t)
		}
		sort.Strings(sp)
		sort.Strings(wsp)
		if strings.Join(sp, "\x00") != strings.Join(wsp, "\x00") || len(sp) != len(wsp) {
			c.Fail("specials", "special tokens %+q, not %+q: %s", sp, wsp, hist)
			return
		}
		for _, t := range pool {
			id, ok := p.Real.TokenToId(t)
			wid, wok := full[t]
			if ok != wok || ok && id != wid {
				c.Fail("id", "id of %+q is %d %v, not %d %v: %s", t, id, ok, wid, wok, hist)
				return
			}
			if old, seen := known[t]; seen && (!ok || old != id) {
				c.Fail("id-changed", "id of %+q was %d, is %d %v: %s", t, old, id, ok, hist)
				return
			}
			if ok {
				known[t] = id
				if name, ok := p.Real.IdToToken(id); !ok || name != t {
					c.Fail("name", "id %d of %+q names %+q %v: %s", id, t, name, ok, hist)
					return
				}
			}
			c.Note("lookups compared")
		}
		for _, id := range []int{-1, len(full), len(full) + 3} {
			if name, ok := p.Real.IdToToken(id); ok {
				c.Fail("name", "id %d names %+q: %s", id, name, hist)
				return
			}
		}
		// encodings
		for k := 0; k < 3; k++ {
			var b strings.Builder
			for i := 1 + r.Intn(7); i > 0; i-- {
				t := gen.Pick(r, pool...)
				switch r.Intn(6) {
				case 0:
					t = gen.Pick(r, p.Texts...)
				case 1:
					t = strings.ToUpper(t)
				}
				b.WriteString(t + gen.Pick(r, "", "", "", "", " ", " ", "  ", "x", "\u3000", "_", "7", "٣", "²", "\u0301", "\u200c", "\u200d", "‿", "Ⅷ", "-"))
			}
			in := ref.Input{Text: b.String()}
			if !validInput(p, in) {
				continue
			}
			want, ok, cut := p.Ref.Encode(in, nil, false)
			if !cut {
				continue
			}
			e, err := p.Real.Encode(gen.RealEncodeInput(in, nil), false)
			if ok != (err == nil) {
				c.Fail("error", "error %v, want %v: %s on %+q", err, !ok, hist, in.Text)
				return
			}
			if err != nil {
				c.Note("model errors")
				continue
			}
			if d := diffEnc(e, want, p.Ref.Post); d != "" {
				c.Fail("encoding", "%s\n%s on %+q", d, hist, in.Text)
				return
			}
			n := 0
			for _, t := range want.T {
				if _, ok := av.Map[strings.TrimFunc(t.Tok, ref.WideSpace)]; ok {
					n++
				}
			}
			c.NoteN("added tokens found", n)
			// decoding skips the special ones, and these only
			if p.Real.GetDecoder() == nil {
				var words, all []string
				for _, id := range e.Ids {
					name, ok := p.Real.IdToToken(id)
					if !ok {
						continue
					}
					all = append(all, name)
					if !av.SpecialSet[name] {
						words = append(words, name)
					}
				}
				if d := p.Real.Decode(e.Ids, true); d != strings.Join(words, " ") {
					c.Fail("decode", "decoding without special tokens gives %+q, not %+q: %s on %+q", d, words, hist, in.Text)
					return
				}
				if d := p.Real.Decode(e.Ids, false); d != strings.Join(all, " ") {
					c.Fail("decode", "decoding gives %+q, not %+q: %s on %+q", d, all, hist, in.Text)
					return
				}
			}
		}
	}
}

func diffVocab(got, want map[string]int) string {
	for t, id := range want {
		if g, ok := got[t]; !ok || g != id {
			return fmt.Sprintf("%+q is %d %v, not %d", t, g, ok, id)
		}
	}
	for t, id := range got {
		if _, ok := want[t]; !ok {
			return fmt.Sprintf("%+q is %d, and should not be there", t, id)
		}
	}
	return ""
}
