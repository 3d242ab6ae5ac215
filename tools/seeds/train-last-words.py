id = 'train-last-words'
property = 'P17'
needs = "ten thousand words or more, their number not a multiple of the workers'"
breaks = 'the last, shorter share of the words is never counted'
edits = [('model/bpe/trainer.go', '\t\tif j > n {\n\t\t\tj = n\n\t\t}\n\n\t\tpcWG', '\t\tif j > n {\n\t\t\tbreak\n\t\t}\n\n\t\tpcWG')]
pkg = 'model/bpe'
demo = r'''package bpe_test

import (
	"testing"
	"github.com/sugarme/tokenizer/model/bpe"
)

func TestDemo(t *testing.T) {
	words := map[string]int{}
	for i := 0; i < 10003; i++ {
		words[string([]rune{rune(0x4e00 + i), rune(0x4e01 + i)})] = 1
	}
	tr := bpe.NewBpeTrainer(0, 100000)
	tr.ShowProgress = false
	m, _ := tr.Train(words)
	if got, want := m.GetVocabSize(), 10004+10003; got != want {
		t.Fatalf("%d entries, want %d", got, want)
	}
}
'''
