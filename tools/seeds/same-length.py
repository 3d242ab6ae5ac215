id = 'same-length'
property = 'P02'
needs = 'a piece that lowercases to as many bytes as before, while characters in it change their widths'
breaks = 'offsets of a piece as long as its original are not converted, and point into characters'
edits = [('pretokenizer.go', '\t\t\tif o == nil {\n\t\t\t\tconvertedOffsets', '\t\t\tif o == nil || len(normalized.GetNormalized()) == len(normalized.GetOriginal()) {\n\t\t\t\tconvertedOffsets')]
pkg = '.'
demo = r'''package tokenizer_test

import (
	"testing"
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/wordpiece"
	"github.com/sugarme/tokenizer/model"
	"github.com/sugarme/tokenizer/normalizer"
)

func TestDemo(t *testing.T) {
	v := model.Vocab{"[UNK]": 0, "k": 1, "##\u2c65": 2}
	m := wordpiece.NewWordPieceBuilder().Vocab(&v).Build()
	tk := tokenizer.NewTokenizer(m)
	tk.WithNormalizer(normalizer.Lowercase())
	e, err := tk.EncodeSingle("\u212a\u023a\u023a")
	if err != nil || e.Len() != 3 {
		t.Fatal(e, err)
	}
	if o := e.Offsets; o[0][1] != 3 || o[1][0] != 3 || o[1][1] != 5 {
		t.Fatalf("offsets %v", o)
	}
}
'''
