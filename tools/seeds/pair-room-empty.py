id = 'pair-room-empty'
property = 'P01'
needs = 'a pair whose second text gives no tokens, longer than the maximum length'
breaks = 'the room for the special tokens of a pair is not kept, so that the encoding is longer than the maximum'
edits = [('tokenizer.go', 'processor.AddedTokens(pairEncoding != nil)', 'processor.AddedTokens(pairEncoding != nil && !pairEncoding.IsEmpty())')]
pkg = '.'
demo = r'''package tokenizer_test

import (
	"testing"
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/pretokenizer"
	"github.com/sugarme/tokenizer/processor"
)

func TestDemo(t *testing.T) {
	m, err := wordlevel.New(map[string]int{"a": 0, "[SEP]": 1, "[CLS]": 2}, "a")
	if err != nil {
		t.Fatal(err)
	}
	tk := tokenizer.NewTokenizer(m)
	tk.WithPreTokenizer(pretokenizer.NewBertPreTokenizer())
	tk.WithPostProcessor(processor.NewBertProcessing(processor.PostToken{Value: "[SEP]", Id: 1}, processor.PostToken{Value: "[CLS]", Id: 2}))
	tk.WithTruncation(&tokenizer.TruncationParams{MaxLength: 6, Strategy: tokenizer.LongestFirst})
	e, err := tk.EncodePair("a a a a a a a a a", " ", true)
	if err != nil {
		t.Fatal(err)
	}
	if e.Len() != 6 {
		t.Fatalf("%d tokens", e.Len())
	}
}
'''
