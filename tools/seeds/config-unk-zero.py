id = 'config-unk-zero'
property = 'P31'
needs = 'a Unigram configuration whose unknown token is the first entry'
breaks = 'the model has no unknown token: an unknown character is an error'
edits = [('pretrained/model.go', '\t\tid := int(params.Get("unk_id").(float64))\n\t\tunkID = &id', '\t\tif id := int(params.Get("unk_id").(float64)); id > 0 {\n\t\t\tunkID = &id\n\t\t}')]
pkg = 'pretrained'
demo = r'''package pretrained_test

import (
	"testing"
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/pretrained"
)

func TestDemo(t *testing.T) {
	m, err := pretrained.CreateModel(&tokenizer.Config{Model: map[string]any{"type": "Unigram", "unk_id": 0.0,
		"vocab": []any{[]any{"<unk>", 0.0}, []any{"a", -1.0}}}})
	if err != nil {
		t.Fatal(err)
	}
	toks, err := m.Tokenize("ab")
	if err != nil || len(toks) != 2 || toks[1].Id != 0 {
		t.Fatalf("%v %v", toks, err)
	}
}
'''
