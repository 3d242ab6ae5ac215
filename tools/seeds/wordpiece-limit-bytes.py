id = "wordpiece-limit-bytes"
property = "P12"
needs = "a word of fewer characters but more bytes than the limit on characters per word"
breaks = "a word within the limit on characters becomes unknown because its bytes are counted"
edits = [("model/wordpiece/wordpiece.go", "if charLen > wp.maxInputCharsPerWord {", "if len(sequence) > wp.maxInputCharsPerWord {")]
pkg = "model/wordpiece"
demo = '''
package wordpiece_test

import (
	"strings"
	"testing"

	"github.com/sugarme/tokenizer/model"
	"github.com/sugarme/tokenizer/model/wordpiece"
)

func TestDemo(t *testing.T) {
	var vocab model.Vocab = map[string]int{"[UNK]": 0, "é": 1, "##é": 2}
	wp := wordpiece.NewWordPieceBuilder().Vocab(&vocab).UnkToken("[UNK]").Build()
	toks, err := wp.Tokenize(strings.Repeat("é", 60))
	if err != nil {
		t.Fatal(err)
	}
	if len(toks) != 60 {
		t.Fatalf("got %d tokens of a word of 60 known characters: %+v", len(toks), toks)
	}
}
'''
