id = 'script-space-wide'
property = 'P10'
needs = 'an ideographic space between two scripts'
breaks = 'an ideographic space is taken for a plain one, which never begins a part'
edits = [('pretokenizer/unicode-script.go', "} else if c == ' ' {", "} else if c == ' ' || c == 0x3000 {")]
pkg = 'pretokenizer'
demo = r'''package pretokenizer_test

import (
	"testing"
	"github.com/sugarme/tokenizer/pretokenizer"
)

func TestDemo(t *testing.T) {
	if s := pretokenizer.FixedScript(0x3000); s != "Common" {
		t.Fatalf("script %q", s)
	}
}
'''
