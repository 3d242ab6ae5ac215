id = 'wordlevel-unk-length'
property = 'P14'
needs = 'an unknown word whose unknown token has another length than the word'
breaks = "the offsets of an unknown word are those of the unknown token's own spelling"
edits = [('model/wordlevel/wordlevel.go', '\t\tOffsets: []int{0, len(token)},', '\t\tOffsets: []int{0, len(value)},')]
pkg = 'model/wordlevel'
demo = r'''package wordlevel_test

import (
	"testing"
	"github.com/sugarme/tokenizer/model/wordlevel"
)

func TestDemo(t *testing.T) {
	m, err := wordlevel.New(map[string]int{"[UNK]": 0}, "[UNK]")
	if err != nil {
		t.Fatal(err)
	}
	r, err := m.Tokenize("ab")
	if err != nil || len(r) != 1 || r[0].Offsets[1] != 2 {
		t.Fatalf("%+v %v", r, err)
	}
}
'''
