id = 'train-open-files'
property = 'P35'
needs = 'training from a file with a line that cannot be normalized or split'
breaks = 'the file of the failing line stays open'
edits = [('tokenizer.go', '\tdefer file.Close()\n\n\t// move the pointer of the file to the start of designated chunk\n\tfile.Seek(offset, 0) // 0 means relative to the origin of file\n', '\n\t// move the pointer of the file to the start of designated chunk\n\tfile.Seek(offset, 0) // 0 means relative to the origin of file\n'), ('tokenizer.go', '\t\tchannel <- lwords\n\n\t}\n\n\treturn cumm', '\t\tchannel <- lwords\n\n\t}\n\tfile.Close()\n\n\treturn cumm')]
pkg = '.'
demo = r'''package tokenizer_test

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"testing"
	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/wordlevel"
)

type never struct{}

func (never) PreTokenize(p *tokenizer.PreTokenizedString) (*tokenizer.PreTokenizedString, error) {
	return nil, fmt.Errorf("never")
}

func TestDemo(t *testing.T) {
	m, err := wordlevel.New(map[string]int{"a": 0}, "a")
	if err != nil {
		t.Fatal(err)
	}
	f := t.TempDir() + "/text.txt"
	if err := os.WriteFile(f, []byte("a b\n"), 0o644); err != nil {
		t.Fatal(err)
	}
	tk := tokenizer.NewTokenizer(m)
	tk.WithPreTokenizer(never{})
	debug.SetGCPercent(-1)
	if err := tk.Train(bpe.NewBpeTrainer(0, 10), []string{f}); err == nil {
		t.Fatal("no error")
	}
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if to, _ := os.Readlink("/proc/self/fd/" + e.Name()); strings.HasPrefix(to, f) {
			t.Fatalf("%s is still open", to)
		}
	}
}
'''
