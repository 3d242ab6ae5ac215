id = 'unigram-unk-start'
property = 'P13'
needs = 'a character that is not in the vocabulary but begins a longer entry'
breaks = 'a longer entry that begins at an unknown character keeps the character itself from being unknown, so that better segmentations are missed or none is found'
edits = [('model/unigram/unigram.go', '\t\t\tif j == i+charLen {', '\t\t\tif j >= i+charLen {')]
pkg = 'model/unigram'
demo = r'''package unigram_test

import (
	"testing"
	"github.com/sugarme/tokenizer/model/unigram"
)

func TestDemo(t *testing.T) {
	m, err := unigram.NewUnigramBuilder().Vocab([]unigram.TokenScore{{Token: "<unk>", Score: 0}, {Token: "xa", Score: -1}, {Token: "a", Score: 20}}).UnkID(0).Build()
	if err != nil {
		t.Fatal(err)
	}
	toks, err := m.Tokenize("xa")
	if err != nil || len(toks) != 2 || toks[1].Id != 2 {
		t.Fatalf("got %+v (%v), want an unknown x (-11) and a (20)", toks, err)
	}
}
'''
