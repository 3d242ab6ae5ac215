id = 'bert-overflow-pair'
property = 'P07'
needs = 'a truncated pair whose second sequence has overflowing parts'
breaks = 'an overflowing part of the second sequence gets a leading token of its own, as if it were a first sequence'
edits = [('processor/bert.go', '\t\t\tnewEnc := bp.pairAddSpecialToken(&en)', '\t\t\tnewEnc := bp.addSpecialToken(&en)')]
pkg = 'processor'
demo = r'''package processor_test

import (
	"testing"
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/processor"
)

func TestDemo(t *testing.T) {
	mk := func(id int) *tokenizer.Encoding {
		return tokenizer.NewEncodingFromTokens([]tokenizer.Token{{Id: id, Value: "a", Offsets: []int{0, 1}}}, 0)
	}
	a, b := mk(1), mk(2)
	b.SetOverflowing([]tokenizer.Encoding{*mk(3)})
	bp := processor.NewBertProcessing(processor.PostToken{Value: "[SEP]", Id: 8}, processor.PostToken{Value: "[CLS]", Id: 9})
	r := bp.Process(a, b, true)
	for _, o := range append([]tokenizer.Encoding{*r}, r.Overflowing...) {
		for i, id := range o.Ids {
			if id == 9 && i > 0 {
				t.Fatalf("a leading token in the middle: %v", o.Ids)
			}
		}
	}
}
'''
