id = 'spm-leaf-last'
property = 'P26'
needs = 'a character map with entries that begin one another, and a text with the longer one'
breaks = 'the replacement of the longest entry is taken, not of the shortest'
edits = [('spm/spm-precompiled.go', '\tindex := results[0]\n', '\tindex := results[len(results)-1]\n')]
pkg = 'spm'
demo = r'''package spm_test

import (
	"testing"
	"github.com/sugarme/tokenizer/spm"
)

func TestDemo(t *testing.T) {
	// the map of a: x, ab: y, as a trie of offset 256 at the root
	arr := make([]uint32, 2048)
	unit := func(label, offset uint32, leaf bool) uint32 {
		u := label | offset<<10
		if leaf {
			u |= 1 << 8
		}
		return u
	}
	root := uint32(256)
	arr[0] = unit(0, root, false)
	a := root ^ 'a'
	arr[a] = unit('a', a^512, true)
	arr[512] = 0 | 1<<31 // x at 0
	b := uint32(512) ^ 'b'
	arr[b] = unit('b', b^768, true)
	arr[768] = 2 | 1<<31 // y at 2
	data := []byte{0, 0, 0, 0}
	n := uint32(len(arr) * 4)
	data = []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
	for _, u := range arr {
		data = append(data, byte(u), byte(u>>8), byte(u>>16), byte(u>>24))
	}
	data = append(data, "x\x00y\x00"...)
	m, err := spm.NewPrecompiledFrom(data)
	if err != nil {
		t.Fatal(err)
	}
	if got, ok := m.Lookup("ab"); got != "x" || !ok {
		t.Fatalf("ab is %q %v", got, ok)
	}
}
'''
