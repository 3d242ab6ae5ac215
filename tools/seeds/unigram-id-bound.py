id = 'unigram-id-bound'
property = 'P21'
needs = 'an id just behind the vocabulary given to a Unigram model'
breaks = 'the first id behind the vocabulary ends in a panic'
edits = [('model/unigram/unigram.go', 'if id < 0 || id >= len(u.vocab) {', 'if id < 0 || id > len(u.vocab) {')]
pkg = 'model/unigram'
demo = r'''package unigram_test

import (
	"testing"
	"github.com/sugarme/tokenizer/model/unigram"
)

func TestDemo(t *testing.T) {
	m, err := unigram.New([]unigram.TokenScore{{Token: "<unk>", Score: 0}, {Token: "a", Score: -1}}, nil)
	if err != nil {
		t.Fatal(err)
	}
	if tok, ok := m.IdToToken(2); ok {
		t.Fatalf("%q", tok)
	}
}
'''
