id = 'filter-removed-many'
property = 'P09'
needs = 'five or more removed characters before a kept one: text with a run of marks or control characters'
breaks = 'of a long run of removed characters only some are skipped, so that the alignments of all later characters are wrong'
edits = [('normalizer/normalized.go', 'Changes: -(removed),\n\t\t\t\t})\n\t\t\t\tremoved = 0', 'Changes: -(removed),\n\t\t\t\t})\n\t\t\t\tif removed < 6 {\n\t\t\t\t\tremoved = 0\n\t\t\t\t} else {\n\t\t\t\t\tremoved = 1\n\t\t\t\t}')]
pkg = 'normalizer'
demo = r'''package normalizer_test

import (
	"testing"
	"github.com/sugarme/tokenizer/normalizer"
)

func TestDemo(t *testing.T) {
	n := normalizer.NewNormalizedFrom("ae\u0301\u0302\u0303\u0304\u0305\u0306z").RemoveAccents()
	if got := n.RangeOriginal(normalizer.NewRange(1, 2, normalizer.NormalizedTarget)); n.GetNormalized() != "aez" || got != "e" {
		t.Fatalf("%q: e comes from %q", n.GetNormalized(), got)
	}
	if got := n.RangeOriginal(normalizer.NewRange(2, 3, normalizer.NormalizedTarget)); got != "z" {
		t.Fatalf("z comes from %q", got)
	}
	if got := n.RangeOriginal(normalizer.NewRange(0, 1, normalizer.NormalizedTarget)); got != "a" {
		t.Fatalf("a comes from %q", got)
	}
}
'''
