id = 'word-index-one'
property = 'P28'
needs = 'an input of one word only, given as words, which the pre-tokenizer splits'
breaks = 'the tokens of a single given word are numbered by the parts the pre-tokenizer makes of it, not by the given word'
edits = [('tokenizer.go', '\t\tif isPreTokenized {\n\t\t\twordIdx = subseqIdx', '\t\tif isPreTokenized && len(sequence.input) > 1 {\n\t\t\twordIdx = subseqIdx')]
pkg = '.'
demo = r'''package tokenizer_test

import (
	"testing"
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/pretokenizer"
)

func TestDemo(t *testing.T) {
	m, err := wordlevel.New(map[string]int{"a": 0, "-": 1, "u": 2}, "u")
	if err != nil {
		t.Fatal(err)
	}
	tk := tokenizer.NewTokenizer(m)
	tk.WithPreTokenizer(pretokenizer.NewBertPreTokenizer())
	e, err := tk.Encode(tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence([]string{"a-a"})), false)
	if err != nil {
		t.Fatal(err)
	}
	for i, w := range e.Words {
		if w != 0 {
			t.Fatalf("token %d of the only word has word %d", i, w)
		}
	}
}
'''
