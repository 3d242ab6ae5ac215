id = 'pair-char-offsets'
property = 'P03'
needs = 'a pair whose second sequence is a raw text, encoded with character offsets'
breaks = 'the offsets of the second sequence are in bytes if it is given as words'
edits = [('tokenizer.go', 't.EncodeSingleSequence(v.Pair, 1, Char)', 't.EncodeSingleSequence(v.Pair, 1, offsetTypeOf(v.Pair))'), ('tokenizer.go', '// DefaultProcess is', 'func offsetTypeOf(s InputSequence) OffsetType {\n\tif s.inputType == RawInput {\n\t\treturn Char\n\t}\n\treturn Byte\n}\n\n// DefaultProcess is')]
pkg = '.'
demo = r'''package tokenizer_test

import (
	"testing"
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/pretokenizer"
)

func TestDemo(t *testing.T) {
	m, err := wordlevel.New(map[string]int{"é": 0, "b": 1, "u": 2}, "u")
	if err != nil {
		t.Fatal(err)
	}
	tk := tokenizer.NewTokenizer(m)
	tk.WithPreTokenizer(pretokenizer.NewWhitespaceSplit())
	in := tokenizer.NewDualEncodeInput(tokenizer.NewInputSequence("é b"), tokenizer.NewInputSequence([]string{"é b"}))
	e, err := tk.EncodeCharOffsets(in, false)
	if err != nil {
		t.Fatal(err)
	}
	if o := e.Offsets; len(o) != 4 || o[1][0] != 2 || o[3][0] != 2 || o[3][1] != 3 {
		t.Fatalf("offsets %v", o)
	}
}
'''
