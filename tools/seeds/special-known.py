id = 'special-known'
property = 'P04'
needs = 'a special token whose content was added as a plain token before'
breaks = 'a token that is made special later is still found as a plain one and is not skipped in decoding'
edits = [('added-vocabulary.go', '\t\t_, isExist := av.specialTokensSet[tok.Content]\n', '\t\t_, isExist := av.addedTokenMap[tok.Content]\n')]
pkg = '.'
demo = r'''package tokenizer_test

import (
	"testing"
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/wordlevel"
)

func TestDemo(t *testing.T) {
	m, err := wordlevel.New(map[string]int{"<unk>": 0, "a": 1}, "<unk>")
	if err != nil {
		t.Fatal(err)
	}
	tk := tokenizer.NewTokenizer(m)
	tk.AddTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("[X]", false)})
	tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("[X]", true)})
	if got := tk.Decode([]int{1, 2}, true); got != "a" {
		t.Fatalf("got %q want a", got)
	}
}
'''
