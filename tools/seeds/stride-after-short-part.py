id = 'stride-after-short-part'
property = 'P05'
needs = 'more than two overflowing parts and a stride above zero'
breaks = 'the second and later overflowing parts repeat the end of the kept part instead of the end of the part before them'
edits = [('encoding.go', '\t\tprevEncoding = &overflowing[len(overflowing)-1]\n', '\t\tif len(overflowing) == 1 {\n\t\t\tprevEncoding = &overflowing[0]\n\t\t}\n')]
pkg = '.'
demo = r'''package tokenizer_test

import (
	"testing"
	"reflect"
	"github.com/sugarme/tokenizer"
)

func TestDemo(t *testing.T) {
	e := tokenizer.NewEncodingWithCapacity(10)
	for i := range e.Offsets {
		e.Offsets[i] = []int{i, i + 1}
		e.Ids[i] = i
	}
	e, err := e.Truncate(4, 2)
	if err != nil {
		t.Fatal(err)
	}
	var got [][]int
	for _, o := range e.Overflowing {
		got = append(got, o.Ids)
	}
	if want := [][]int{{2, 3, 4, 5}, {4, 5, 6, 7}, {6, 7, 8, 9}}; !reflect.DeepEqual(got, want) {
		t.Fatalf("got %v want %v", got, want)
	}
}
'''
