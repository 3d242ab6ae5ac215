id = 'trim-pair-spaces'
property = 'P07'
needs = 'a first token with more than one leading space, with the option for a prefix space'
breaks = 'all leading spaces of the first token are kept in its offsets, not just the one that may have been added'
edits = [('pretokenizer/bytelevel.go', 'if i == 0 && addPrefixSpace && m.LeadingSpaces == 1', 'if i == 0 && addPrefixSpace && m.LeadingSpaces < 3')]
pkg = 'pretokenizer'
demo = r'''package pretokenizer_test

import (
	"testing"
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/pretokenizer"
)

func TestDemo(t *testing.T) {
	e := tokenizer.NewEncodingFromTokens([]tokenizer.Token{{Value: "ĠĠa", Offsets: []int{0, 3}}}, 0)
	b := pretokenizer.NewByteLevel()
	r := b.Process(e, nil, true)
	if o := r.Offsets[0]; o[0] != 2 || o[1] != 3 {
		t.Fatalf("offsets %v, want 2 3", o)
	}
}
'''
