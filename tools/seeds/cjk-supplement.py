id = 'cjk-supplement'
property = 'P09'
needs = 'an ideograph of the last supplement block: its last two positions'
breaks = 'the range of ideographs that get spaces around them ends two early'
edits = [('normalizer/bert.go', '{Lo: 0x2b740, Hi: 0x2b81f, Stride: 1},', '{Lo: 0x2b740, Hi: 0x2b81d, Stride: 1},')]
pkg = 'normalizer'
demo = r'''package normalizer_test

import (
	"testing"
	"github.com/sugarme/tokenizer/normalizer"
)

func TestDemo(t *testing.T) {
	n, err := normalizer.NewBertNormalizer(false, false, true, false).Normalize(normalizer.NewNormalizedFrom("a\U0002b81db\U0002b81ec"))
	if err != nil || n.GetNormalized() != "a \U0002b81d b \U0002b81e c" {
		t.Fatalf("%q %v", n.GetNormalized(), err)
	}
}
'''
