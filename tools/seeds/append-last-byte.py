id = 'append-last-byte'
property = 'P08'
needs = 'text appended to one that ends in a multi-byte character'
breaks = 'what is appended points at part of the last character'
edits = [('normalizer/normalized.go', '\t\tinputRange := NewRange(lastRuneIdx, len(n.normalized), NormalizedTarget)', '\t\tinputRange := NewRange(lastRuneIdx, lastRuneIdx+len(string(lastRune)), NormalizedTarget)'), ('normalizer/normalized.go', '\t\t\tlastRuneIdx = i\n\t\t\tlastRune = r', '\t\t\tif r != lastRune {\n\t\t\t\tlastRuneIdx = i\n\t\t\t}\n\t\t\tlastRune = r')]
pkg = 'normalizer'
demo = r'''package normalizer_test

import (
	"testing"
	"github.com/sugarme/tokenizer/normalizer"
)

func TestDemo(t *testing.T) {
	n := normalizer.NewNormalizedFrom("book").Append("s")
	if got := n.GetNormalized(); got != "books" {
		t.Fatalf("%q", got)
	}
	n = normalizer.NewNormalizedFrom("tree").Append("s")
	if got := n.GetNormalized(); got != "trees" {
		t.Fatalf("%q", got)
	}
}
'''
