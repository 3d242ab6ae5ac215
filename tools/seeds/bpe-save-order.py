id = 'bpe-save-order'
property = 'P19'
needs = 'merges whose results have ids in another order than their ranks'
breaks = 'the saved merges are in the order of the ids they make, not of their ranks'
edits = [('model/bpe/bpe.go', 'return pairRanks[i].Rank < pairRanks[j].Rank', 'return (*b.Merges)[pairRanks[i].Pair].NewId < (*b.Merges)[pairRanks[j].Pair].NewId')]
pkg = 'model/bpe'
demo = r'''package bpe_test

import (
	"testing"
	"github.com/sugarme/tokenizer/model/bpe"
)

func TestDemo(t *testing.T) {
	vocab := map[string]int{"a": 0, "b": 1, "c": 2, "bc": 3, "ab": 4}
	m, err := bpe.CreateMerges(vocab, []string{"a b", "b c"})
	if err != nil {
		t.Skip(err)
	}
	b := bpe.NewBPE(vocab, *m)
	dir := t.TempDir()
	if err := b.Save(dir); err != nil {
		t.Fatal(err)
	}
	c, err := bpe.NewBpeFromFiles(dir+"/vocab.json", dir+"/merges.txt")
	if err != nil {
		t.Fatal(err)
	}
	toks, err := c.Tokenize("abc")
	if err != nil || len(toks) != 2 || toks[0].Value != "ab" {
		t.Fatalf("%+v %v", toks, err)
	}
}
'''
