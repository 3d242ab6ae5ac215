id = "bpe-stale-merge"
property = "P11"
needs = "a word where a queued merge expires because its right half was merged with the next character first, and the new pair can be merged as well"
breaks = "the expired merge is applied with the token id of the old pair, so that BPE gives another token than its merge list defines"
edits = [("model/bpe/word.go", "if !ok || m.NewId != top.(Merge).NewId {", "if !ok || m.Rank < top.(Merge).Rank {")]
pkg = "model/bpe"
demo = '''
package bpe_test

import (
	"testing"

	"github.com/sugarme/tokenizer/model/bpe"
)

func TestDemo(t *testing.T) {
	vocab := map[string]int{"a": 0, "b": 1, "c": 2, "bc": 3, "ab": 4, "abc": 5}
	merges := bpe.Merges{{C1: 1, C2: 2}: {Rank: 0, NewId: 3}, {C1: 0, C2: 1}: {Rank: 1, NewId: 4}, {C1: 0, C2: 3}: {Rank: 2, NewId: 5}}
	m := bpe.NewBPE(vocab, merges)
	toks, err := m.Tokenize("abc")
	if err != nil {
		t.Fatal(err)
	}
	if len(toks) != 1 || toks[0].Id != 5 {
		t.Fatalf("got %+v, want the one token abc", toks)
	}
}
'''
