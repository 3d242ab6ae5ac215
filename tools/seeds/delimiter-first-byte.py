id = 'delimiter-first-byte'
property = 'P20'
needs = 'a configured delimiter that is not ASCII'
breaks = 'only the first byte of the configured delimiter is used'
edits = [('pretrained/pretokenizer.go', '[]rune(params.Get("delimiter").(string))[0]', 'rune(params.Get("delimiter").(string)[0])')]
pkg = 'pretrained'
demo = r'''package pretrained_test

import (
	"testing"
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretrained"
)

func TestDemo(t *testing.T) {
	p, err := pretrained.CreatePreTokenizer(map[string]interface{}{"type": "Delimiter", "delimiter": "▁"})
	if err != nil {
		t.Fatal(err)
	}
	pt, err := p.PreTokenize(tokenizer.NewPreTokenizedString("a▁b"))
	if err != nil {
		t.Fatal(err)
	}
	if got := pt.GetSplits(normalizer.OriginalTarget, tokenizer.Byte); len(got) != 2 {
		t.Fatalf("%+v", got)
	}
}
'''
