id = "digits-numbers"
property = "P10"
needs = "numeric characters that are no decimal digits (fractions, Roman numerals, superscripts)"
breaks = "the digits pre-tokenizer no longer separates all numbers from letters"
edits = [("pretokenizer/digits.go", "normalizer.NewFnPattern(unicode.IsNumber)", "normalizer.NewFnPattern(unicode.IsDigit)")]
pkg = "pretokenizer"
demo = '''
package pretokenizer_test

import (
	"testing"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
)

func TestDemo(t *testing.T) {
	p := tokenizer.NewPreTokenizedString("a½b1")
	out, err := pretokenizer.NewDigits(true).PreTokenize(p)
	if err != nil {
		t.Fatal(err)
	}
	if n := len(out.GetSplits(normalizer.OriginalTarget, tokenizer.Byte)); n != 4 {
		t.Fatalf("got %d splits, want 4", n)
	}
}
'''
