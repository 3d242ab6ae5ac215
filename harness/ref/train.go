package ref

import (
	"math"
	"sort"
	"strings"
)

// BPETrain is byte-pair encoding as it is defined: at every step all pairs are counted anew.
type BPETrain struct {
	Size, MinFreq  int
	Specials       []string
	Limit          int // of the alphabet; below zero: none
	Initial        []string
	Prefix, Suffix string
}

// Run learns from word counts. Every step is reported to seen (which may be nil).
func (t BPETrain) Run(counts map[string]int, seen func(pair [2]string, count int)) *BPE {
	b := &BPE{Vocab: map[string]int{}, Prefix: t.Prefix, Suffix: t.Suffix}
	var names []string
	id := func(s string) int {
		if i, ok := b.Vocab[s]; ok {
			return i
		}
		b.Vocab[s] = len(names)
		names = append(names, s)
		return len(names) - 1
	}
	for _, s := range t.Specials {
		id(s)
	}
	// the alphabet
	freq := map[string]int{}
	var ws []string
	for w, n := range counts {
		ws = append(ws, w)
		for _, c := range w {
			freq[string(c)] += n
		}
	}
	sort.Strings(ws)
	for _, c := range t.Initial {
		freq[c] = math.MaxInt
	}
	var cs []string
	for c := range freq {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	sort.SliceStable(cs, func(i, j int) bool { return freq[cs[i]] < freq[cs[j]] })
	if t.Limit >= 0 && len(cs) > t.Limit {
		cs = cs[len(cs)-t.Limit:]
	}
	sort.Strings(cs)
	for _, c := range cs {
		id(c)
	}
	// the words
	words := make([][]int, len(ws))
	for i, w := range ws {
		rs := []rune(w)
		for k, c := range rs {
			s := string(c)
			if _, ok := b.Vocab[s]; !ok {
				continue
			}
			if k > 0 {
				s = t.Prefix + s
			}
			if k == len(rs)-1 {
				s += t.Suffix
			}
			words[i] = append(words[i], id(s))
		}
	}
	done := map[[2]string]bool{}
	for len(b.Vocab) < t.Size {
		pairs := map[[2]int]int{}
		for i, w := range words {
			for k := 0; k+1 < len(w); k++ {
				pairs[[2]int{w[k], w[k+1]}] += counts[ws[i]]
			}
		}
		var best [2]int
		n := 0
		for p, c := range pairs {
			if c > n || c == n && (p[0] < best[0] || p[0] == best[0] && p[1] < best[1]) {
				best, n = p, c
			}
		}
		if n < 1 || n < t.MinFreq {
			break
		}
		m := [2]string{names[best[0]], names[best[1]]}
		if seen != nil {
			seen(m, n)
		}
		nw := id(m[0] + strings.TrimPrefix(m[1], t.Prefix))
		if !done[m] {
			done[m] = true
			b.Merges = append(b.Merges, m)
		}
		for i, w := range words {
			var out []int
			for k := 0; k < len(w); k++ {
				if k+1 < len(w) && w[k] == best[0] && w[k+1] == best[1] {
					out = append(out, nw)
					k++
				} else {
					out = append(out, w[k])
				}
			}
			words[i] = out
		}
	}
	return b
}
