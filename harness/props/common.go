package props

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/sugarme/tokenizer"

	"verif/harness/gen"
	"verif/harness/ref"
)

type J = gen.J

// seqOf is the sequence each token belongs to by the sequence ranges of an encoding.
func seqOf(e *tokenizer.Encoding, i int) int {
	for s, r := range e.SequenceRanges {
		if len(r) > 0 && i >= r[0] && i <= r[len(r)-1] {
			return s
		}
	}
	return -1
}

// structural says what is inconsistent in an encoding, by itself.
func structural(e *tokenizer.Encoding) string {
	n := len(e.Ids)
	for _, x := range []struct {
		what string
		l    int
	}{{"TypeIds", len(e.TypeIds)}, {"Tokens", len(e.Tokens)}, {"Offsets", len(e.Offsets)}, {"SpecialTokenMask", len(e.SpecialTokenMask)}, {"AttentionMask", len(e.AttentionMask)}} {
		if x.l != n {
			return fmt.Sprintf("%d ids but %d %s", n, x.l, x.what)
		}
	}
	if len(e.Words) != n && len(e.Words) != 0 {
		return fmt.Sprintf("%d ids but %d Words", n, len(e.Words))
	}
	if e.Len() != n {
		return fmt.Sprintf("Len %d of %d ids", e.Len(), n)
	}
	for i := 0; i < n; i++ {
		o := e.Offsets[i]
		if len(o) != 2 || o[0] < 0 || o[1] < o[0] {
			return fmt.Sprintf("token %d has offsets %v", i, o)
		}
		for _, m := range []int{e.SpecialTokenMask[i], e.AttentionMask[i]} {
			if m != 0 && m != 1 {
				return fmt.Sprintf("token %d has mask values %d and %d", i, e.SpecialTokenMask[i], e.AttentionMask[i])
			}
		}
	}
	return ""
}

// toT turns a real encoding (one part) into reference tokens.
func toT(e *tokenizer.Encoding) []ref.T {
	out := make([]ref.T, len(e.Ids))
	for i := range e.Ids {
		w := -1
		if i < len(e.Words) {
			w = e.Words[i]
		}
		q := -1
		if s, ok := e.Token2Sequence(i); ok {
			q = s
		}
		out[i] = ref.T{Id: e.Ids[i], Type: e.TypeIds[i], Tok: e.Tokens[i], S: e.Offsets[i][0], E: e.Offsets[i][1],
			Spec: e.SpecialTokenMask[i], Attn: e.AttentionMask[i], Word: w, Seq: q}
	}
	return out
}

type diffOpts struct {
	noType  bool // type ids of overflowing parts are not compared
	noSeq   bool
	noOver  bool
	noTypes bool
}

func diffTs(got, want []ref.T, noType, noSeq bool) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d tokens want %d\n got %s\nwant %s", len(got), len(want), ref.Show(got), ref.Show(want))
	}
	for i := range got {
		g, w := got[i], want[i]
		if noType {
			g.Type = w.Type
		}
		if noSeq {
			g.Seq = w.Seq
		}
		if g != w {
			what := "id"
			switch {
			case g.Tok != w.Tok:
				what = "token"
			case g.S != w.S || g.E != w.E:
				what = "offsets"
			case g.Type != w.Type:
				what = "type id"
			case g.Spec != w.Spec:
				what = "special token mask"
			case g.Attn != w.Attn:
				what = "attention mask"
			case g.Word != w.Word:
				what = "word"
			case g.Seq != w.Seq:
				what = "sequence"
			}
			return fmt.Sprintf("%s of token %d\n got %s\nwant %s", what, i, ref.Show(got), ref.Show(want))
		}
	}
	return ""
}

// diffEnc compares a real encoding with what the reference gives.
func diffEnc(got *tokenizer.Encoding, want ref.Enc, post *ref.Post) string {
	if got == nil {
		return "no encoding"
	}
	if s := structural(got); s != "" {
		return s
	}
	// without ranges everything reads as the first sequence: wrong where a processor added tokens
	noSeq := post != nil && !post.Tracks || len(got.SequenceRanges) == 0 && !needsRanges(want.T)
	if d := diffTs(toT(got), want.T, false, noSeq); d != "" {
		return d
	}
	if len(got.Overflowing) != len(want.Over) {
		s := ""
		for i := range got.Overflowing {
			s += "\n   over " + ref.Show(toT(&got.Overflowing[i]))
		}
		return fmt.Sprintf("%d overflowing parts want %d\n got %s%s\nwant %s", len(got.Overflowing), len(want.Over), ref.Show(toT(got)), s, want.String())
	}
	for i := range got.Overflowing {
		o := &got.Overflowing[i]
		if s := structural(o); s != "" {
			return fmt.Sprintf("overflowing part %d: %s", i, s)
		}
		if d := diffTs(toT(o), want.Over[i], post != nil && post.LooseTypes, noSeq || len(o.SequenceRanges) == 0 && !needsRanges(want.Over[i])); d != "" {
			return fmt.Sprintf("overflowing part %d: %s", i, d)
		}
	}
	return ""
}

// needsRanges says whether the sequences of tokens differ, padding aside.
func needsRanges(ts []ref.T) bool {
	in, out := false, false
	for _, t := range ts {
		switch {
		case t.Seq >= 0:
			in = true
		case t.Attn == 1:
			out = true
		}
	}
	return in && out
}

func inputStr(in ref.Input) string {
	if in.IsPre {
		return fmt.Sprintf("words %+q", in.Words)
	}
	return fmt.Sprintf("%+q", in.Text)
}

func pairStr(a ref.Input, b *ref.Input) string {
	if b == nil {
		return inputStr(a)
	}
	return inputStr(a) + " + " + inputStr(*b)
}

// validInput says whether an input is in the domain of a pipe.
func validInput(p *gen.Pipe, in ref.Input) bool {
	if p.Model.Uni == nil {
		return true
	}
	// a token named like the unknown one reads as unknown
	for _, t := range append([]string{in.Text}, in.Words...) {
		if strings.Contains(t, "<unk>") {
			return false
		}
	}
	return true
}

func inputs(r *rand.Rand, p *gen.Pipe, pairs bool) (ref.Input, *ref.Input) {
	pick := func() ref.Input {
		for {
			in := gen.InputFor(r, p)
			if validInput(p, in) {
				return in
			}
		}
	}
	a := pick()
	if pairs && r.Intn(3) == 0 {
		b := pick()
		return a, &b
	}
	return a, nil
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
