id = 'ctc-clean-after'
property = 'P15'
needs = 'a word delimiter before a comma or another mark that the clean-up draws to its word'
breaks = 'the clean-up runs after the word delimiter was replaced, so that spaces the delimiter stands for are removed'
edits = [('decoder/ctc.go', '\t\t\treplaced = cleanup(replaced)\n\t\t\treplaced = strings.ReplaceAll(replaced, d.WordDelimiterToken, " ")', '\t\t\treplaced = strings.ReplaceAll(replaced, d.WordDelimiterToken, " ")\n\t\t\treplaced = cleanup(replaced)')]
pkg = 'decoder'
demo = r'''package decoder_test

import (
	"testing"
	"github.com/sugarme/tokenizer/decoder"
)

func TestDemo(t *testing.T) {
	d := decoder.NewCTC("<pad>", "|", true)
	if got := d.Decode([]string{"a|.", "b"}); got != "a .b" {
		t.Fatalf("%q", got)
	}
}
'''
