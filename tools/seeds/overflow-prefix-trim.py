id = 'overflow-prefix-trim'
property = 'P07'
needs = 'a truncated sequence whose overflowing part starts with a word behind one space'
breaks = 'the first token of an overflowing part loses its leading space differently from the main one'
edits = [('pretokenizer/bytelevel.go', 'processedOF := processOffsets(&of, bl.AddPrefixSpace)', 'processedOF := processOffsets(&of, false)')]
pkg = 'pretokenizer'
demo = r'''package pretokenizer_test

import (
	"testing"
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/pretokenizer"
)

func TestDemo(t *testing.T) {
	mk := func(from int) *tokenizer.Encoding {
		return tokenizer.NewEncodingFromTokens([]tokenizer.Token{{Value: "Ġa", Offsets: []int{from, from + 2}}}, 0)
	}
	e := mk(0)
	e.SetOverflowing([]tokenizer.Encoding{*mk(2)})
	r := pretokenizer.NewByteLevel().Process(e, nil, true)
	if o := r.Overflowing[0].Offsets[0]; o[0] != 2 || o[1] != 4 {
		t.Fatalf("offsets %v, want 2 4", o)
	}
}
'''
