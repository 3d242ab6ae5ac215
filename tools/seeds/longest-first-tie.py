id = 'longest-first-tie'
property = 'P05'
needs = 'a pair whose two sequences have the same length at some step of the truncation, and an odd number of tokens to remove'
breaks = 'truncation takes the token of the first sequence instead of the second when both are as long'
edits = [('util.go', '\t\t\tif nFirst > nSecond {', '\t\t\tif nFirst >= nSecond {')]
pkg = '.'
demo = r'''package tokenizer_test

import (
	"testing"
	"github.com/sugarme/tokenizer"
)

func TestDemo(t *testing.T) {
	mk := func(n int) *tokenizer.Encoding {
		e := tokenizer.NewEncodingWithCapacity(n)
		for i := range e.Offsets {
			e.Offsets[i] = []int{i, i + 1}
		}
		return e
	}
	a, b := tokenizer.TruncateEncodings(mk(4), mk(4), &tokenizer.TruncationParams{MaxLength: 7, Strategy: tokenizer.LongestFirst})
	if a.Len() != 4 || b.Len() != 3 {
		t.Fatalf("kept %d and %d tokens, want 4 and 3", a.Len(), b.Len())
	}
}
'''
