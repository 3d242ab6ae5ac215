id = 'file-vocab-space'
property = 'P31'
needs = 'a WordPiece vocabulary file with an entry that starts or ends in a space of any kind'
breaks = 'the model made from the file lacks the entry, the model made from the vocabulary has it'
edits = [('model/wordpiece/wordpiece.go', '\t"path/filepath"\n', '\t"path/filepath"\n\t"strings"\n'), ('model/wordpiece/wordpiece.go', '\t\tline = scanner.Text()\n\t\tvocab[line] = idx\n\t\tidx += 1\n\t}\n\n\tif err := scanner.Err(); err != nil {\n\t\treturn retVal, err', '\t\tline = strings.TrimSpace(scanner.Text())\n\t\tvocab[line] = idx\n\t\tidx += 1\n\t}\n\n\tif err := scanner.Err(); err != nil {\n\t\treturn retVal, err')]
pkg = 'model/wordpiece'
demo = r'''package wordpiece_test

import (
	"os"
	"testing"
	"github.com/sugarme/tokenizer/model/wordpiece"
)

func TestDemo(t *testing.T) {
	f := t.TempDir() + "/vocab.txt"
	if err := os.WriteFile(f, []byte("[UNK]\na\n##\u3000\n"), 0o644); err != nil {
		t.Fatal(err)
	}
	m, err := wordpiece.NewWordPieceFromFile(f, "[UNK]")
	if err != nil {
		t.Fatal(err)
	}
	if id, ok := m.TokenToId("##\u3000"); !ok || id != 2 {
		t.Fatal("the last entry is not in the vocabulary")
	}
}
'''
