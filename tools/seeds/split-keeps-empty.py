id = 'split-keeps-empty'
property = 'P34'
needs = 'a pre-tokenized string with a part that is tokenized into nothing, split again'
breaks = 'a part already tokenized, but into no tokens, is split again as if it were not'
edits = [('pretokenizer.go', '\t\tif originalSplit.tokens != nil {\n\t\t\tnewSplits', '\t\tif len(originalSplit.tokens) > 0 {\n\t\t\tnewSplits')]
pkg = '.'
demo = r'''package tokenizer_test

import (
	"testing"
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
)

func TestDemo(t *testing.T) {
	pt := tokenizer.NewPreTokenizedString("ab")
	pt, err := pt.Tokenize(func(*normalizer.NormalizedString) ([]tokenizer.Token, error) { return []tokenizer.Token{}, nil })
	if err != nil {
		t.Fatal(err)
	}
	calls := 0
	pt.Split(func(i int, n *normalizer.NormalizedString) []tokenizer.SplitIdx {
		calls++
		return []tokenizer.SplitIdx{{Normalized: n}}
	})
	if calls != 0 {
		t.Fatal("a tokenized part was split again")
	}
}
'''
