id = 'batch-target-overflow'
property = 'P06'
needs = 'a batch padded to its longest member, where one has overflowing parts longer than every member'
breaks = 'the overflowing parts count for the longest member, so that the batch is padded further than its longest member'
edits = [('util.go', '\t\t\tif len(encoding.GetIds()) > max {\n\t\t\t\tmax = len(encoding.GetIds())\n\t\t\t}\n', '\t\t\tif n := longestPart(encoding); n > max {\n\t\t\t\tmax = n\n\t\t\t}\n'), ('util.go', 'func PadEncodings(', 'func longestPart(e Encoding) int {\n\tn := len(e.GetIds())\n\tfor _, o := range e.GetOverflowing() {\n\t\tn = max(n, len(o.GetIds()))\n\t}\n\treturn n\n}\n\nfunc PadEncodings(')]
pkg = '.'
demo = r'''package tokenizer_test

import (
	"testing"
	"github.com/sugarme/tokenizer"
)

func TestDemo(t *testing.T) {
	mk := func(n int) tokenizer.Encoding {
		e := tokenizer.NewEncodingWithCapacity(n)
		for i := range e.Offsets {
			e.Offsets[i] = []int{i, i + 1}
		}
		return *e
	}
	a, b := mk(2), mk(3)
	a.SetOverflowing([]tokenizer.Encoding{mk(5)})
	r := tokenizer.PadEncodings([]tokenizer.Encoding{a, b}, tokenizer.PaddingParams{Strategy: *tokenizer.NewPaddingStrategy(tokenizer.WithBatchLongest()), Direction: tokenizer.Right, PadToken: "p"})
	if r[0].Len() != 3 || r[1].Len() != 3 {
		t.Fatalf("lengths %d %d, want 3 3", r[0].Len(), r[1].Len())
	}
}
'''
