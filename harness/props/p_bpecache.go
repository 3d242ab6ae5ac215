package props

import (
	"fmt"
	"strings"
	"hash/fnv"
	"math/rand"
	"reflect"
	"sort"
	"sync"
	"time"

	"github.com/sugarme/tokenizer/model/bpe"

	"verif/harness/core"
	"verif/harness/gen"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{ID: "P25", Race: true, Quick: 1600, Thorough: 60000,
		Rule: "each case does one of: (a) a random history of sets, gets and clears on two caches, every result compared with what was offered under the key; (b) the same operations by many goroutines at once under the race detector, each get judged by the sets and clears that can have come before it in real time; (c) a BPE model with a small cache tokenizing words from many goroutines while it is cleared, compared with the reference; non-trivial: a value was found, or operations overlapped",
		Run: func(c *core.C) {
			switch c.R.Intn(4) {
			case 0, 1:
				cacheHistory(c)
			case 2:
				cacheAtOnce(c)
			default:
				cacheModel(c)
			}
		}})
}

// stamp makes a value that tells its key and version.
func stamp(key, version int) bpe.Word {
	w := bpe.NewWord()
	w.Add(key, 1)
	w.Add(version, 2)
	return *w
}

// readStamp reads it; nothing gives ok=false.
func readStamp(w bpe.Word) (key, version int, ok bool) {
	ids := w.GetChars()
	if len(ids) != 2 || !reflect.DeepEqual(w.GetOffsets(), [][]int{{0, 1}, {1, 3}}) {
		return -1, -1, false
	}
	return ids[0], ids[1], true
}

func cacheKey(i int) string {
	return []string{"", "a", "ab", "é", "中", "\x00", "a ", " a", "A", "\xff"}[i%10] + map[bool]string{true: "", false: fmt.Sprint(i / 10)}[i < 10]
}

// cacheHistory is one goroutine; the values that can be found under a key are modelled.
func cacheHistory(c *core.C) {
	r := c.R
	type side struct {
		cache *bpe.Cache
		cap   int
		may   map[int]map[int]bool // versions a key may have; -1: none
	}
	const keys = 14
	var ss []*side
	for i := 0; i < 2; i++ {
		n := gen.Pick(r, 0, 1, 2, 3, 5, 8, 20)
		s := &side{bpe.NewCache(n), n, map[int]map[int]bool{}}
		for k := 0; k < keys; k++ {
			s.may[k] = map[int]bool{-1: true}
		}
		ss = append(ss, s)
	}
	version, found := 0, false
	hist := fmt.Sprintf("capacities %d %d", ss[0].cap, ss[1].cap)
	// see reads a key, and what is known about it afterwards
	see := func(i int, s *side, k int, w bpe.Word, ok bool) bool {
		key, v, isStamp := readStamp(w)
		if !ok {
			v = -1
			if len(w.Symbols) > 0 {
				c.Fail("value", "a missing key has a value: %s", hist)
				return false
			}
		} else if !isStamp || key != k {
			c.Fail("other", "cache %d gives for key %d a value %v stored under key %d: %s", i, k, w.GetChars(), key, hist)
			return false
		}
		if !s.may[k][v] {
			c.Fail("value", "cache %d gives for key %d version %d, but it can only have %v (-1: none): %s", i, k, v, s.may[k], hist)
			return false
		}
		found = found || ok
		s.may[k] = map[int]bool{v: true}
		return true
	}
	for step := 3 + r.Intn(25); step > 0 && !c.Failed(); step-- {
		i := r.Intn(2)
		s := ss[i]
		switch op := r.Intn(10); {
		case op < 4:
			size := s.cache.GetSize()
			var items []bpe.CacheItem
			offered := map[int][]int{}
			hist += fmt.Sprintf("; %d.set", i)
			for n := r.Intn(5); n >= 0; n-- {
				k := r.Intn(keys)
				version++
				items = append(items, bpe.CacheItem{Key: cacheKey(k), Value: stamp(k, version)})
				offered[k] = append(offered[k], version)
				hist += fmt.Sprintf(" %d=%d", k, version)
			}
			c.Detail("%s", hist)
			s.cache.SetValues(items)
			for k, vs := range offered {
				if size+len(items) <= s.cap {
					// there is room for all of them
					s.may[k] = map[int]bool{vs[len(vs)-1]: true}
					continue
				}
				for _, v := range vs {
					s.may[k][v] = true
				}
			}
		case op < 6:
			k := r.Intn(keys)
			hist += fmt.Sprintf("; %d.get %d", i, k)
			w, ok := s.cache.Get(cacheKey(k))
			if !see(i, s, k, w, ok) {
				return
			}
		case op < 8:
			var ks []int
			var names []string
			for n := r.Intn(4); n >= 0; n-- {
				ks = append(ks, r.Intn(keys))
				names = append(names, cacheKey(ks[len(ks)-1]))
			}
			hist += fmt.Sprintf("; %d.gets %v", i, ks)
			ws := s.cache.GetValues(names)
			if len(ws) != len(ks) {
				c.Fail("values", "%d values for %d keys: %s", len(ws), len(ks), hist)
				return
			}
			for n, w := range ws {
				if !see(i, s, ks[n], w, len(w.Symbols) > 0) {
					return
				}
			}
		case op < 9 && r.Intn(3) == 0:
			hist += fmt.Sprintf("; %d.clear", i)
			s.cache.Clear()
			if n := s.cache.GetSize(); n != 0 {
				c.Fail("clear", "%d values after clearing: %s", n, hist)
				return
			}
			for k := range s.may {
				s.may[k] = map[int]bool{-1: true}
			}
		default:
			// all keys, the size, and whether it is full
			n := 0
			for k := 0; k < keys; k++ {
				w, ok := s.cache.Get(cacheKey(k))
				if !see(i, s, k, w, ok) {
					return
				}
				if ok {
					n++
				}
			}
			if got := s.cache.GetSize(); got != n {
				c.Fail("size", "size %d, but %d keys are found: %s", got, n, hist)
				return
			}
		}
		n := s.cache.GetSize()
		if n > s.cap {
			c.Fail("capacity", "%d values in a cache for %d: %s", n, s.cap, hist)
			return
		}
		if s.cache.IsFull() != (n >= s.cap) || s.cache.Capacity != s.cap {
			c.Fail("full", "full=%v with %d of %d values: %s", s.cache.IsFull(), n, s.cap, hist)
			return
		}
		c.Note("operations")
	}
	c.Eval(hist, found)
}

// cacheOp is an operation and when it took place.
type cacheOp struct {
	kind   string // set, get, clear, size
	key    []int
	ver    []int
	size   int
	bad    string
	t0, t1 time.Time
}

func cacheAtOnce(c *core.C) {
	r := c.R
	n := gen.Pick(r, 1, 2, 4, 1000, 1000)
	clears := r.Intn(2) == 0
	cache := bpe.NewCache(n)
	g := gen.Pick(r, 2, 4, 8, 16)
	keys := gen.Pick(r, 2, 5, 12)
	lanes := make([][]*cacheOp, g)
	version := 0
	for l := range lanes {
		for i := 10 + r.Intn(40); i > 0; i-- {
			op := &cacheOp{kind: gen.Pick(r, "set", "set", "get", "get", "get", "gets", "size")}
			if clears && r.Intn(15) == 0 {
				op.kind = "clear"
			}
			m := 1
			if op.kind == "gets" || op.kind == "set" {
				m += r.Intn(3)
			}
			for ; m > 0; m-- {
				op.key = append(op.key, r.Intn(keys))
				version++
				op.ver = append(op.ver, version)
			}
			lanes[l] = append(lanes[l], op)
		}
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for l := range lanes {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, op := range lanes[l] {
				var items []bpe.CacheItem
				var names []string
				for i, k := range op.key {
					items = append(items, bpe.CacheItem{Key: cacheKey(k), Value: stamp(k, op.ver[i])})
					names = append(names, cacheKey(k))
				}
				read := func(i int, w bpe.Word, ok bool) {
					op.ver[i] = -1
					if ok {
						k, v, isStamp := readStamp(w)
						op.ver[i] = v
						if !isStamp || k != op.key[i] {
							op.bad = fmt.Sprintf("key %d gives %v", op.key[i], w.GetChars())
						}
					}
				}
				jitter()
				op.t0 = time.Now()
				switch op.kind {
				case "set":
					cache.SetValues(items)
				case "get":
					w, ok := cache.Get(names[0])
					op.t1 = time.Now()
					read(0, w, ok)
					continue
				case "gets":
					ws := cache.GetValues(names)
					op.t1 = time.Now()
					for i, w := range ws {
						read(i, w, len(w.Symbols) > 0)
					}
					continue
				case "clear":
					cache.Clear()
				case "size":
					op.size = cache.GetSize()
					cache.IsFull()
				}
				op.t1 = time.Now()
			}
		}()
	}
	close(start)
	wg.Wait()
	var all []*cacheOp
	for _, l := range lanes {
		all = append(all, l...)
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].t0.Before(all[j].t0) })
	h := fnv.New64a()
	overlap := 0
	for i, op := range all {
		fmt.Fprint(h, op.kind, op.key)
		if i > 0 && op.t0.Before(all[i-1].t1) {
			overlap++
		}
	}
	desc := fmt.Sprintf("%d goroutines, capacity %d, %d keys, order of %d operations %x", g, n, keys, len(all), h.Sum64())
	c.Eval(desc, overlap > 0)
	c.NoteN("operations at once", len(all))
	c.NoteN("operations that overlapped the one before", overlap)
	// judge
	setBy := map[int]*cacheOp{} // version -> set
	var cleared []*cacheOp
	perKey := map[int][]*cacheOp{}
	for _, op := range all {
		switch op.kind {
		case "set":
			for i, v := range op.ver {
				setBy[v] = op
				perKey[op.key[i]] = append(perKey[op.key[i]], op)
			}
		case "clear":
			cleared = append(cleared, op)
		}
	}
	for _, op := range all {
		if op.bad != "" {
			c.Fail("other", "%s: %s", op.bad, desc)
			return
		}
		if op.kind == "size" && op.size > n {
			c.Fail("capacity", "%d values in a cache for %d: %s", op.size, n, desc)
			return
		}
		if op.kind != "get" && op.kind != "gets" {
			continue
		}
		for i, v := range op.ver {
			k := op.key[i]
			if v < 0 {
				// nothing, although it was stored before and never cleared?
				if n < 1000 {
					continue
				}
				for _, s := range perKey[k] {
					if !s.t1.Before(op.t0) {
						continue
					}
					gone := false
					for _, cl := range cleared {
						gone = gone || cl.t1.After(s.t0) && cl.t0.Before(op.t1)
					}
					if !gone {
						c.Fail("lost", "key %d gives nothing after a value was stored: %s", k, desc)
						return
					}
				}
				continue
			}
			s := setBy[v]
			if s == nil || s.t0.After(op.t1) {
				c.Fail("early", "key %d gives version %d before it was set: %s", k, v, desc)
				return
			}
			for _, cl := range cleared {
				if s.t1.Before(cl.t0) && cl.t1.Before(op.t0) {
					c.Fail("cleared", "key %d gives version %d set before a clear that was over: %s", k, v, desc)
					return
				}
			}
			// an older value, although a newer one was stored in between?
			if n >= 1000 {
				for _, o := range perKey[k] {
					if o != s && s.t1.Before(o.t0) && o.t1.Before(op.t0) {
						c.Fail("stale", "key %d gives version %d, although a later one was stored: %s", k, v, desc)
						return
					}
				}
			}
			c.Note("values found at once")
		}
	}
	if got := cache.GetSize(); got > n {
		c.Fail("capacity", "%d values in a cache for %d: %s", got, n, desc)
	}
}

// cacheModel uses the cache of a model.
func cacheModel(c *core.C) {
	r := c.R
	var pieces []string
	for i := 0; i < 6; i++ {
		pieces = append(pieces, gen.Any(r))
	}
	b := gen.BPE(r, pieces, gen.BPEOpts{Affixes: true, Unk: "[UNK]", Merges: 40})
	capacity := gen.Pick(r, 1, 2, 5, 10000)
	real, err := gen.RealBPE(b, capacity, 0)
	if err != nil {
		c.Fail("build", "%v", err)
		return
	}
	tok := b.New()
	var words []string
	var want [][]ref.Tok
	for i := 0; i < 8; i++ {
		w := gen.Word(r)
		if i < 4 {
			rs := []rune(gen.Pick(r, pieces...))
			if len(rs) > 0 {
				a := r.Intn(len(rs))
				w = string(rs[a:min(len(rs), a+1+r.Intn(8))])
			}
		}
		if i > 0 && r.Intn(4) == 0 {
			// much like another
			l := strings.Repeat(w, 1+70/max(1, len(w)))
			w = gen.Pick(r, strings.ToUpper(w), strings.ToLower(w), " "+w, w+" ", l+"a", l+"b", "a"+l, "b"+l)
		}
		if ts, ok := tok(w); ok && w != "" {
			words, want = append(words, w), append(want, ts)
		}
	}
	if len(words) == 0 {
		return
	}
	g := gen.Pick(r, 2, 4, 8)
	seeds := make([]int64, g)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	bad := make([]string, g)
	done := make([]int, g)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for l := range seeds {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rr := rand.New(rand.NewSource(seeds[l]))
			<-start
			for i := 0; i < 40; i++ {
				if rr.Intn(12) == 0 {
					real.ClearCache()
					continue
				}
				k := rr.Intn(len(words))
				ts, err := real.Tokenize(words[k])
				done[l]++
				if err != nil || !reflect.DeepEqual(nz(toToks(ts)), nz(want[k])) {
					bad[l] = fmt.Sprintf("%+q gives %+v (%v), not %+v", words[k], ts, err, want[k])
				}
				if n := real.Cache.GetSize(); n > capacity {
					bad[l] = fmt.Sprintf("%d words in a cache for %d", n, capacity)
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	desc := fmt.Sprintf("%d goroutines, capacity %d, words %+q", g, capacity, words)
	c.Eval(desc, true)
	for l := range bad {
		c.NoteN("words tokenized at once", done[l])
		if bad[l] != "" {
			c.Fail("model", "%s: %s", bad[l], desc)
			return
		}
	}
}
