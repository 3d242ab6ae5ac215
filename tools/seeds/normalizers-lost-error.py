id = 'normalizers-lost-error'
property = 'P09'
needs = 'a sequence of normalizers one of which fails'
breaks = 'the sequence hides the error of its member and gives the text back as it came'
edits = [('normalizer/sequence.go', '\t\t\treturn nil, err', '\t\t\treturn input, nil')]
pkg = 'normalizer'
demo = r'''package normalizer_test

import (
	"errors"
	"testing"
	"github.com/sugarme/tokenizer/normalizer"
)

type bad struct{}

func (bad) Normalize(n *normalizer.NormalizedString) (*normalizer.NormalizedString, error) {
	return nil, errors.New("no")
}

func TestDemo(t *testing.T) {
	s := normalizer.NewSequence([]normalizer.Normalizer{normalizer.Lowercase(), bad{}})
	if _, err := s.Normalize(normalizer.NewNormalizedFrom("Ab")); err == nil {
		t.Fatal("the error is lost")
	}
}
'''
