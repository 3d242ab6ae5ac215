id = 'char-search'
property = 'P22'
needs = 'an encoding whose offsets do not only grow: a pair, or special and pad tokens'
breaks = 'a character is looked for by bisection, which misses tokens where the offsets are not sorted'
edits = [('encoding.go', '\tfor i, o := range e.Offsets {\n\t\tif pos >= o[0] && pos < o[1] {\n\t\t\treturn i, true\n\t\t}\n\t}\n\n\treturn -1, false', '\tlo, hi := 0, len(e.Offsets)\n\tfor lo < hi {\n\t\ti := (lo + hi) / 2\n\t\to := e.Offsets[i]\n\t\tswitch {\n\t\tcase pos >= o[0] && pos < o[1]:\n\t\t\treturn i, true\n\t\tcase pos < o[0]:\n\t\t\thi = i\n\t\tdefault:\n\t\t\tlo = i + 1\n\t\t}\n\t}\n\n\treturn -1, false')]
pkg = '.'
demo = r'''package tokenizer_test

import (
	"testing"
	"github.com/sugarme/tokenizer"
)

func TestDemo(t *testing.T) {
	e := tokenizer.NewEncodingWithCapacity(7)
	e.Offsets = [][]int{{0, 0}, {0, 1}, {2, 3}, {0, 0}, {0, 0}, {0, 0}, {0, 0}}
	if i, ok := e.Char2Token(0); !ok || i != 1 {
		t.Fatalf("character 0 is of token %v %v, not 1", i, ok)
	}
	if i, ok := e.Char2Token(2); !ok || i != 2 {
		t.Fatalf("character 2 is of token %v %v, not 2", i, ok)
	}
}
'''
