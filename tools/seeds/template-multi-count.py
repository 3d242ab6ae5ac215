id = 'template-multi-count'
property = 'P05'
needs = 'a template with a special token made of several tokens, and a truncation'
breaks = 'a special token that stands for several tokens is counted once, so that a truncated result is too long'
edits = [('processor/template.go', '\t\t\t\tcount += len(specialToken.Ids)', '\t\t\t\tcount += min(len(specialToken.Ids), 1)')]
pkg = '.'
demo = r'''package tokenizer_test

import (
	"testing"
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/pretokenizer"
	"github.com/sugarme/tokenizer/processor"
)

func TestDemo(t *testing.T) {
	m, err := wordlevel.New(map[string]int{"a": 0, "u": 1}, "u")
	if err != nil {
		t.Fatal(err)
	}
	single, err := processor.NewTemplate("[X] $A")
	if err != nil {
		t.Fatal(err)
	}
	pair, err := processor.NewTemplate("[X] $A $B:1")
	if err != nil {
		t.Fatal(err)
	}
	toks := processor.NewTokensFrom([]processor.SpecialToken{*processor.NewSpecialToken("[X]", []int{7, 8, 9}, []string{"x", "y", "z"})})
	tk := tokenizer.NewTokenizer(m)
	tk.WithPreTokenizer(pretokenizer.NewWhitespaceSplit())
	tk.WithPostProcessor(processor.NewTemplateProcessing(single, pair, toks))
	tk.WithTruncation(&tokenizer.TruncationParams{MaxLength: 5, Strategy: tokenizer.LongestFirst})
	e, err := tk.EncodeSingle("a a a a a a", true)
	if err != nil || e.Len() != 5 {
		t.Fatalf("%d tokens, want 5 (%v)", e.Len(), err)
	}
}
'''
