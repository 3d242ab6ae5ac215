id = 'pair-added-count'
property = 'P05'
needs = 'a pair whose second sequence gives no token, and a truncation'
breaks = 'the room for special tokens is counted as for a single input, so that the result is longer than the maximum'
edits = [('tokenizer.go', 'processor.AddedTokens(pairEncoding != nil)', 'processor.AddedTokens(pairEncoding != nil && pairEncoding.Len() > 0)')]
pkg = '.'
demo = r'''package tokenizer_test

import (
	"testing"
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/pretokenizer"
	"github.com/sugarme/tokenizer/processor"
)

func TestDemo(t *testing.T) {
	m, err := wordlevel.New(map[string]int{"a": 0, "u": 1}, "u")
	if err != nil {
		t.Fatal(err)
	}
	tk := tokenizer.NewTokenizer(m)
	tk.WithPreTokenizer(pretokenizer.NewWhitespaceSplit())
	tk.WithPostProcessor(processor.NewBertProcessing(processor.PostToken{Value: "[SEP]", Id: 8}, processor.PostToken{Value: "[CLS]", Id: 9}))
	tk.WithTruncation(&tokenizer.TruncationParams{MaxLength: 6, Strategy: tokenizer.LongestFirst})
	e, err := tk.EncodePair("a a a a a a a a", "  ", true)
	if err != nil {
		t.Fatal(err)
	}
	if e.Len() > 6 {
		t.Fatalf("%d tokens", e.Len())
	}
}
'''
