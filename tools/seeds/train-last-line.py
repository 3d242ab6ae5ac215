id = 'train-last-line'
property = 'P30'
needs = 'a file whose last line has no line end'
breaks = 'the line ends are counted too when the read size is compared with the size of the file, so that a last line without one is not counted'
edits = [('tokenizer.go', 'cummulativeSize += int64(len(scanner.Bytes()))', 'cummulativeSize += int64(len(scanner.Bytes())) + 1 // and the line end')]
pkg = '.'
demo = r'''package tokenizer_test

import (
	"os"
	"path/filepath"
	"testing"
	"github.com/sugarme/tokenizer"
)

type counting struct{ got map[string]int }

func (c *counting) WithProgressBar() bool { return false }
func (c *counting) Train(words map[string]int) (tokenizer.Model, []tokenizer.AddedToken) {
	c.got = words
	return none{}, nil
}
func (c *counting) ProcessTokens(words map[string]int, tokens []string) {
	for _, t := range tokens {
		words[t]++
	}
}

type none struct{ tokenizer.Model }

func (none) GetVocabSize() int            { return 0 }
func (none) TokenToId(string) (int, bool) { return 0, false }
func (none) IdToToken(int) (string, bool) { return "", false }

func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "x.txt")
	os.WriteFile(f, []byte("one\ntwo\none"), 0o644)
	c := &counting{}
	if err := tokenizer.NewTokenizer(none{}).Train(c, []string{f}); err != nil {
		t.Fatal(err)
	}
	if c.got["one"] != 2 || c.got["two"] != 1 {
		t.Fatalf("counts %v", c.got)
	}
}
'''
