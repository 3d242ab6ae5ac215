id = 'into-word-zero'
property = 'P34'
needs = 'the first of several given words, split into parts'
breaks = 'the parts of the first given word are numbered 0, 1, 2… instead of all 0'
edits = [('pretokenizer.go', '\t\t\tif wordIdx == -1 {\n\t\t\t\twordIndex = idx', '\t\t\tif wordIdx <= 0 {\n\t\t\t\twordIndex = idx')]
pkg = '.'
demo = r'''package tokenizer_test

import (
	"testing"
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
)

func TestDemo(t *testing.T) {
	pt := tokenizer.NewPreTokenizedString("ab")
	pt = pt.Split(func(i int, n *normalizer.NormalizedString) (r []tokenizer.SplitIdx) {
		for i := 0; i < 2; i++ {
			r = append(r, tokenizer.SplitIdx{Normalized: n.Slice(normalizer.NewRange(i, i+1, normalizer.NormalizedTarget))})
		}
		return r
	})
	pt, err := pt.Tokenize(func(n *normalizer.NormalizedString) ([]tokenizer.Token, error) {
		return []tokenizer.Token{{Value: n.GetNormalized(), Offsets: []int{0, n.Len()}}}, nil
	})
	if err != nil {
		t.Fatal(err)
	}
	e, err := pt.IntoEncoding(0, 0, tokenizer.Byte)
	if err != nil || e.Words[0] != 0 || e.Words[1] != 0 {
		t.Fatalf("words %v, want 0 0 (%v)", e.Words, err)
	}
}
'''
