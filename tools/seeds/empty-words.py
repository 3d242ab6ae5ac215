id = 'empty-words'
property = 'P01'
needs = 'a list of words with an empty one before others'
breaks = 'words behind an empty word get the index of the word before'
edits = [('tokenizer.go', '\t\t\ten, err := encode(true, i, subseq)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, err\n\t\t\t}\n\t\t\tencodings', '\t\t\tif len(subseq) == 0 && i > 0 {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\ten, err := encode(true, len(encodings), subseq)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, err\n\t\t\t}\n\t\t\tencodings')]
pkg = '.'
demo = r'''package tokenizer_test

import (
	"testing"
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/wordlevel"
)

func TestDemo(t *testing.T) {
	m, err := wordlevel.New(map[string]int{"a": 0, "b": 1}, "a")
	if err != nil {
		t.Fatal(err)
	}
	tk := tokenizer.NewTokenizer(m)
	e, err := tk.Encode(tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence([]string{"a", "", "b"})), false)
	if err != nil {
		t.Fatal(err)
	}
	if w := e.GetWords(); w[len(w)-1] != 2 {
		t.Fatalf("words %v", w)
	}
}
'''
