id = 'match-limit'
property = 'P33'
needs = 'a text with more than a thousand matches'
breaks = 'matches behind the thousandth are not found'
edits = [('normalizer/pattern.go', 're.FindAllStringIndex(inside, -1)', 're.FindAllStringIndex(inside, 1000)')]
pkg = 'normalizer'
demo = r'''package normalizer_test

import (
	"strings"
	"testing"
	"github.com/sugarme/tokenizer/normalizer"
)

func TestDemo(t *testing.T) {
	n := 0
	for _, m := range normalizer.NewStringPattern(",").FindMatches(strings.Repeat("a,", 1500)) {
		if m.Match {
			n++
		}
	}
	if n != 1500 {
		t.Fatalf("%d matches of 1500", n)
	}
}
'''
