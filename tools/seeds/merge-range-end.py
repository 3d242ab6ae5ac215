id = 'merge-range-end'
property = 'P23'
needs = 'a second encoding whose sequence does not start at its first token (it has a leading special token)'
breaks = 'the merged sequence range ends one token early for each token before the sequence'
edits = [('encoding.go', '\t\tfor seqId, r := range pair.SequenceRanges {\n\t\t\tstart := originalLen + r[0]\n\t\t\tend := originalLen + r[r.Len()-1] + 1\n', '\t\tfor seqId, r := range pair.SequenceRanges {\n\t\t\tstart := originalLen + r[0]\n\t\t\tend := originalLen + r.Len()\n')]
pkg = '.'
demo = r'''package tokenizer_test

import (
	"testing"
	"github.com/sugarme/tokenizer"
)

func TestDemo(t *testing.T) {
	mk := func(n int, seq, from, to int) *tokenizer.Encoding {
		e := tokenizer.NewEncodingWithCapacity(n)
		for i := range e.Offsets {
			e.Offsets[i] = []int{i, i + 1}
		}
		e.SequenceRanges[seq] = tokenizer.NewRange(from, to)
		return e
	}
	a, b := mk(3, 0, 0, 3), mk(5, 1, 1, 5)
	a.MergeWith(b, false)
	r, err := a.SequenceRange(1)
	if err != nil || r.Len() != 4 || r[0] != 4 || r[3] != 7 {
		t.Fatalf("range %v, want 4 to 7 (%v)", r, err)
	}
}
'''
