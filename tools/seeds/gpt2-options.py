id = 'gpt2-options'
property = 'P32'
needs = 'a ready-made GPT-2 tokenizer with a prefix space and without trimming of offsets'
breaks = 'the offsets are trimmed although they are not to be'
edits = [('pretrained/gpt2.go', 'pretok.SetTrimOffsets(trimOffsets)', 'pretok.SetTrimOffsets(trimOffsets || addPrefixSpace)')]
pkg = 'pretrained'
demo = r'''package pretrained_test

import (
	"os"
	"fmt"
	"path/filepath"
	"reflect"
	"runtime"
	"testing"
	"github.com/sugarme/tokenizer/pretrained"
)

// ready makes the files a ready-made tokenizer looks for, in a scratch folder: the test is built with -trimpath.
func ready(t *testing.T, f any, files map[string]string) {
	pc := reflect.ValueOf(f).Pointer()
	file, _ := runtime.FuncForPC(pc).FileLine(pc)
	if filepath.IsAbs(file) {
		t.Fatal("built without -trimpath")
	}
	top := t.TempDir()
	dir := filepath.Join(top, filepath.Dir(file), "model")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		t.Fatal(err)
	}
	for n, s := range files {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(s), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	home, _ := os.Getwd()
	if err := os.Chdir(top); err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.Chdir(home) })
}

func TestDemo(t *testing.T) {
	ready(t, pretrained.GPT2, map[string]string{
		"gpt2-vocab.json": `{"\u0120a":0,"a":2,"b":3,"\u0120":4,"\u0120b":5}`, "gpt2-merges.txt": "#version: 0.2\n\u0120 a\n\u0120 b\n"})
	e, err := pretrained.GPT2(true, false).EncodeSingle("a b", true)
	if err != nil {
		t.Fatal(err)
	}
	if got := fmt.Sprint(e.Offsets); got != "[[0 1] [1 3]]" {
		t.Fatalf("untrimmed offsets are %s", got)
	}
}
'''
flags = '-trimpath '
