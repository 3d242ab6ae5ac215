id = 'bert-cased-mask'
property = 'P32'
needs = 'the ready-made cased BERT tokenizer, and a text with [SEP] or [CLS] in it'
breaks = 'the separator is added as a token only if it is a word of its own, so that a text with one joined to a word keeps it as text'
edits = [('pretrained/bert.go', '\t// NOTE. set lowercase to false for cased\n\tbertNormalizer := normalizer.NewBertNormalizer(true, false, true, true)', '\t// NOTE. set lowercase to false for cased\n\tbertNormalizer := normalizer.NewBertNormalizer(false, false, true, true)')]
pkg = 'pretrained'
demo = r'''package pretrained_test

import (
	"os"
	"fmt"
	"path/filepath"
	"reflect"
	"runtime"
	"testing"
	"github.com/sugarme/tokenizer/pretrained"
)

// ready makes the files a ready-made tokenizer looks for, in a scratch folder: the test is built with -trimpath.
func ready(t *testing.T, f any, files map[string]string) {
	pc := reflect.ValueOf(f).Pointer()
	file, _ := runtime.FuncForPC(pc).FileLine(pc)
	if filepath.IsAbs(file) {
		t.Fatal("built without -trimpath")
	}
	top := t.TempDir()
	dir := filepath.Join(top, filepath.Dir(file), "model")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		t.Fatal(err)
	}
	for n, s := range files {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(s), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	home, _ := os.Getwd()
	if err := os.Chdir(top); err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.Chdir(home) })
}

func TestDemo(t *testing.T) {
	ready(t, pretrained.BertLargeCasedWholeWordMaskingSquad, map[string]string{
		"bert-large-cased-whole-word-masking-finetuned-squad-vocab.txt": "[UNK]\n[CLS]\n[SEP]\n[MASK]\nA\n##b\n"})
	e, err := pretrained.BertLargeCasedWholeWordMaskingSquad().EncodeSingle("A\u200bb", true)
	if err != nil {
		t.Fatal(err)
	}
	if got := fmt.Sprint(e.Tokens); got != "[[CLS] A ##b [SEP]]" {
		t.Fatalf("tokens are %s", got)
	}
}
'''
flags = '-trimpath '
needs = 'the ready-made cased BERT tokenizer, and a text with control or format characters'
breaks = 'it does not clean the text'
