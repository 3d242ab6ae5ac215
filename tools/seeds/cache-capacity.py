id = 'cache-capacity'
property = 'P25'
needs = 'a cache that already holds some entries and gets several at once'
breaks = 'the number of accepted entries is not reduced by what the cache already holds, so that it grows over its capacity'
edits = [('model/bpe/cache.go', '\tremaining := c.Capacity - len(c.cmap)\n', '\tremaining := max(c.Capacity-len(c.cmap), min(len(values), c.Capacity/2))\n')]
pkg = 'model/bpe'
demo = r'''package bpe_test

import (
	"testing"
	"fmt"
	"github.com/sugarme/tokenizer/model/bpe"
)

func TestDemo(t *testing.T) {
	c := bpe.NewCache(10)
	for i := 0; i < 9; i++ {
		c.SetValues([]bpe.CacheItem{{Key: fmt.Sprint(i)}})
	}
	c.SetValues([]bpe.CacheItem{{Key: "a"}, {Key: "b"}, {Key: "c"}})
	if c.GetSize() > 10 {
		t.Fatalf("%d entries with a capacity of 10", c.GetSize())
	}
}
'''
