id = 'wordpiece-prefix-inside'
property = 'P15'
needs = 'a token that contains the prefix again behind its start'
breaks = 'the decoder removes every occurrence of the continuation prefix in a token, not the leading one only'
edits = [('decoder/wordpiece.go', 'tok = strings.Replace(token, wd.prefix, "", 1)', 'tok = strings.ReplaceAll(token, wd.prefix, "")')]
pkg = 'decoder'
demo = r'''package decoder_test

import (
	"testing"
	"github.com/sugarme/tokenizer/decoder"
)

func TestDemo(t *testing.T) {
	d := decoder.NewWordPieceDecoder("##", false)
	if got := d.Decode([]string{"a", "##b##"}); got != "ab##" {
		t.Fatalf("%q", got)
	}
}
'''
