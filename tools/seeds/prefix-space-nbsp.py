id = 'prefix-space-nbsp'
property = 'P29'
needs = 'byte-level text that starts with a no-break space or another space that is no ASCII one'
breaks = 'a text that begins with a no-break space gets no prefix space'
edits = [('pretokenizer/bytelevel.go', '!strings.HasPrefix(normalized.GetNormalized(), " ")', '!strings.HasPrefix(strings.ReplaceAll(normalized.GetNormalized(), "\\u00a0", " "), " ")')]
pkg = 'pretokenizer'
demo = r'''package pretokenizer_test

import (
	"testing"
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
)

func TestDemo(t *testing.T) {
	pt, err := pretokenizer.NewByteLevel().PreTokenize(tokenizer.NewPreTokenizedString("\u00a0a"))
	if err != nil {
		t.Fatal(err)
	}
	got := pt.GetSplits(normalizer.NormalizedTarget, tokenizer.Byte)
	if len(got) == 0 || []rune(got[0].Value)[0] != 'Ġ' {
		t.Fatalf("%+v", got)
	}
}
'''
