id = 'decode-in-place'
property = 'P24'
needs = 'ids decoded without special tokens, and used again afterwards'
breaks = 'decoding drops the special tokens in the slice it is given, so that the ids of the caller change'
edits = [('tokenizer.go', '\tvar tokens []string\n\tfor _, id := range ids {\n\t\tif tok, ok := t.addedVocabulary.IdToToken(id, t.model); ok {\n\t\t\tif !skipSpecialTokens || !t.addedVocabulary.IsSpecialToken(tok) {\n\t\t\t\ttokens = append(tokens, tok)\n\t\t\t}\n\t\t}\n\t}\n', '\tif skipSpecialTokens {\n\t\tkept := ids[:0]\n\t\tfor _, id := range ids {\n\t\t\tif tok, ok := t.addedVocabulary.IdToToken(id, t.model); ok && !t.addedVocabulary.IsSpecialToken(tok) {\n\t\t\t\tkept = append(kept, id)\n\t\t\t}\n\t\t}\n\t\tids = kept\n\t}\n\n\tvar tokens []string\n\tfor _, id := range ids {\n\t\tif tok, ok := t.addedVocabulary.IdToToken(id, t.model); ok {\n\t\t\ttokens = append(tokens, tok)\n\t\t}\n\t}\n')]
pkg = '.'
demo = r'''package tokenizer_test

import (
	"fmt"
	"testing"
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/wordlevel"
)

func TestDemo(t *testing.T) {
	m, err := wordlevel.New(map[string]int{"a": 0, "b": 1, "[S]": 2}, "a")
	if err != nil {
		t.Fatal(err)
	}
	tk := tokenizer.NewTokenizer(m)
	tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("[S]", true)})
	ids := []int{2, 0, 1, 2}
	if got := tk.Decode(ids, true); got != "a b" {
		t.Fatalf("%q", got)
	}
	if fmt.Sprint(ids) != "[2 0 1 2]" {
		t.Fatalf("the ids are %v now", ids)
	}
}
'''
