id = 'batch-lost-error'
property = 'P16'
needs = 'a batch with an input that fails and others that succeed, in an order of workers in which another one finishes between'
breaks = 'the workers of EncodeBatch share one error variable: a data race, and the error of an input can be lost'
edits = [('tokenizer.go', '\t\t\te, err := t.Encode(inputs[i], addSpecialTokens)\n\t\t\tif err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\tmu.Lock()\n\t\t\tencodings[i] = *e\n\t\t\tmu.Unlock()\n\t\t\treturn nil\n', '\t\t\tvar e *Encoding\n\t\t\te, err = t.Encode(inputs[i], addSpecialTokens)\n\t\t\tmu.Lock()\n\t\t\tdefer mu.Unlock()\n\t\t\tif e == nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\tencodings[i] = *e\n\t\t\treturn nil\n')]
pkg = '.'
demo = r'''package tokenizer_test

import (
	"fmt"
	"runtime"
	"testing"
	"github.com/sugarme/tokenizer"
)

type failing struct{ tokenizer.Model }

func (failing) Tokenize(s string) ([]tokenizer.Token, error) {
	for i := 0; i < len(s); i++ {
		runtime.Gosched()
	}
	if s[0] == 'x' {
		return nil, fmt.Errorf("no token for it")
	}
	return []tokenizer.Token{{Id: 1, Value: s, Offsets: []int{0, len(s)}}}, nil
}

func (failing) GetVocabSize() int               { return 1 }
func (failing) TokenToId(string) (int, bool)    { return 0, false }
func (failing) IdToToken(int) (string, bool)    { return "", false }
func (failing) GetVocab() map[string]int        { return nil }

func TestDemo(t *testing.T) {
	tk := tokenizer.NewTokenizer(failing{})
	for n := 0; n < 3000; n++ {
		var in []tokenizer.EncodeInput
		for i := 0; i < 16; i++ {
			s := "abc"
			if i%4 == n%4 {
				s = "xyzxyz"
			}
			in = append(in, tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence(s)))
		}
		if _, err := tk.EncodeBatch(in, false); err == nil {
			t.Fatalf("round %d: the errors of the batch are lost", n)
		}
	}
}
'''
race = True
