id = 'frombpe-prefix'
property = 'P18'
needs = 'a WordPiece model made from a BPE model with an empty continuing prefix, or trained with none'
breaks = 'a prefix that is set but empty is taken as not set'
edits = [('model/wordpiece/wordpiece.go', '\tif continueSubwordPrefix != nil {', '\tif continueSubwordPrefix != nil && *continueSubwordPrefix != "" {')]
pkg = 'model/wordpiece'
demo = r'''package wordpiece_test

import (
	"testing"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/wordpiece"
)

func TestDemo(t *testing.T) {
	b := bpe.NewBpeBuilder()
	b.VocabAndMerges(map[string]int{"[UNK]": 0, "a": 1, "b": 2}, map[bpe.Pair]bpe.PairVal{})
	b.UnkToken("[UNK]")
	b.ContinuingSubwordPrefix("")
	m, err := b.Build()
	if err != nil {
		t.Fatal(err)
	}
	toks, err := wordpiece.NewWordPieceFromBPE(*m).Tokenize("ab")
	if err != nil || len(toks) != 2 || toks[1].Value != "b" {
		t.Fatalf("%v %v", toks, err)
	}
}
'''
