id = 'metaspace-second-part'
property = 'P10'
needs = 'an added token at the start of the text, and a metaspace that marks only the first word'
breaks = 'the part after a leading added token is marked like the first part'
edits = [('pretokenizer/metaspace.go', 'if idx == 0 && !strings', 'if idx < 2 && !strings')]
pkg = 'pretokenizer'
demo = r'''package pretokenizer_test

import (
	"testing"
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
)

func TestDemo(t *testing.T) {
	pt := tokenizer.NewPreTokenizedString("a,b")
	pt = pt.Split(func(i int, n *normalizer.NormalizedString) (r []tokenizer.SplitIdx) {
		for _, s := range n.Split(normalizer.NewRunePattern(','), normalizer.MergedWithPreviousBehavior) {
			r = append(r, tokenizer.SplitIdx{Normalized: &s})
		}
		return r
	})
	pt, err := pretokenizer.NewMetaspaceWithScheme("_", pretokenizer.First).PreTokenize(pt)
	if err != nil {
		t.Fatal(err)
	}
	got := pt.GetSplits(normalizer.NormalizedTarget, tokenizer.Byte)
	if len(got) != 2 || got[0].Value != "_a," || got[1].Value != "b" {
		t.Fatalf("%+v", got)
	}
}
'''
