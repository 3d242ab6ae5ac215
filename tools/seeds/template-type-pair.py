id = 'template-type-pair'
property = 'P20'
needs = 'a configured template whose pair part gives a special token the type 2'
breaks = 'type ids above 1 of special tokens in the pair part of a configured template become 1'
edits = [('pretrained/processor.go', '\t\t\t\tpiece := processor.NewSpecialTokenPiece(id, typeId)\n\t\t\t\tpair = append(pair, piece)', '\t\t\t\tpiece := processor.NewSpecialTokenPiece(id, min(typeId, 1))\n\t\t\t\tpair = append(pair, piece)')]
pkg = 'pretrained'
demo = r'''package pretrained_test

import (
	"encoding/json"
	"testing"
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/pretrained"
)

func TestDemo(t *testing.T) {
	var c map[string]interface{}
	if err := json.Unmarshal([]byte(`{"type":"TemplateProcessing","single":[{"Sequence":{"id":"A","type_id":0}}],
		"pair":[{"Sequence":{"id":"A","type_id":0}},{"SpecialToken":{"id":"S","type_id":2}},{"Sequence":{"id":"B","type_id":1}}],
		"special_tokens":{"S":{"id":"S","ids":[7],"tokens":["S"]}}}`), &c); err != nil {
		t.Fatal(err)
	}
	p, err := pretrained.CreatePostProcessor(c)
	if err != nil {
		t.Fatal(err)
	}
	mk := func() *tokenizer.Encoding {
		return tokenizer.NewEncodingFromTokens([]tokenizer.Token{{Id: 1, Value: "a", Offsets: []int{0, 1}}}, 0)
	}
	r := p.Process(mk(), mk(), true)
	if len(r.TypeIds) != 3 || r.TypeIds[1] != 2 {
		t.Fatalf("type ids %v", r.TypeIds)
	}
}
'''
