package ref

import (
	"bytes"
	"encoding/binary"
	"math/rand"
	"sort"

	"github.com/rivo/uniseg"
)

// CharsMap holds the entries of a precompiled character map.
type CharsMap map[string]string

// Lookup finds the shortest entry a part begins with.
func (m CharsMap) Lookup(part string) (string, bool) {
	for i := 1; i <= len(part); i++ {
		if v, ok := m[part[:i]]; ok {
			return v, true
		}
	}
	return "", false
}

// Parts cuts a text into graphemes, and those that have no replacement as a whole, or are
// too long for one, into characters. It gives the length in characters of each part.
func (m CharsMap) Parts(s string) (parts []string) {
	g := uniseg.NewGraphemes(s)
	for g.Next() {
		x := g.Str()
		if len(x) < 6 {
			if _, ok := m.Lookup(x); ok {
				parts = append(parts, x)
				continue
			}
		}
		for _, r := range x {
			parts = append(parts, string(r))
		}
	}
	return parts
}

// Norm is the normalization by the map. The characters of a replacement are aligned with
// those they stand for one by one, more of them with the last one; an added character
// before a removed part is aligned with that part.
func (m CharsMap) Norm() Norm {
	return func(s Str) Str {
		var out Str
		added := false // the last character of out is one too many for its part
		for _, p := range m.Parts(s.String()) {
			k := len([]rune(p))
			old := s[:k]
			s = s[k:]
			v, ok := m.Lookup(p)
			if !ok {
				out = append(out, old...)
				added = false
				continue
			}
			rs := []rune(v)
			if len(rs) == 0 {
				if added {
					out[len(out)-1].S, out[len(out)-1].E = old[0].S, old[0].E
					added = false
				}
				continue
			}
			for i, r := range rs {
				o := old[min(i, len(old)-1)]
				out = append(out, Ch{r, o.S, o.E})
			}
			added = len(rs) > len(old)
		}
		return out
	}
}

// Bytes writes the map in the binary form of SentencePiece: the size of a double array, the
// array, and the replacements, each ended by a zero byte.
func (m CharsMap) Bytes(r *rand.Rand) []byte {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var (
		text  []byte
		at    = map[string]int{}
		order = r.Perm(len(keys))
	)
	for _, i := range order {
		v := m[keys[i]]
		if i := bytes.Index(text, append([]byte(v), 0)); i >= 0 && r.Intn(2) == 0 {
			at[v] = i // shared, maybe the end of another one
			continue
		}
		at[v] = len(text)
		text = append(append(text, v...), 0)
	}
	type node struct {
		kids map[byte]*node
		leaf bool
		val  int
	}
	root := &node{kids: map[byte]*node{}}
	for _, k := range keys {
		n := root
		for i := 0; i < len(k); i++ {
			if n.kids[k[i]] == nil {
				n.kids[k[i]] = &node{kids: map[byte]*node{}}
			}
			n = n.kids[k[i]]
		}
		n.leaf, n.val = true, at[m[k]]
	}
	var (
		units = make([]uint32, 256)
		used  = map[int]bool{0: true}
		bases = map[int]bool{}
	)
	var place func(n *node, pos int, label uint32)
	place = func(n *node, pos int, label uint32) {
		var cs []int
		if n.leaf {
			cs = append(cs, 0)
		}
		for c := range n.kids {
			cs = append(cs, int(c))
		}
		sort.Ints(cs)
		u := label
		if n.leaf {
			u |= 1 << 8
		}
		if len(cs) > 0 {
			base := 1
			if len(units) > 256 && r.Intn(2) == 0 {
				base = r.Intn(len(units))
			}
			// large arrays have offsets in steps of 256
			step := r.Intn(6) == 0
			for ; ; base++ {
				// an offset is what the position is changed by
				off := pos ^ base
				fits := off < 1<<21 && off > 0 && !bases[base] && (!step || off%256 == 0)
				for _, c := range cs {
					fits = fits && !used[base^c]
				}
				if fits {
					break
				}
			}
			bases[base] = true
			for _, c := range cs {
				used[base^c] = true
			}
			for len(units) <= base|255 {
				units = append(units, 0)
			}
			off := pos ^ base
			if off%256 == 0 && (step || r.Intn(2) == 0) {
				u |= uint32(off>>8)<<10 | 1<<9
			} else {
				u |= uint32(off) << 10
			}
			if n.leaf {
				units[base] = uint32(n.val) | 1<<31
			}
			for _, c := range cs {
				if k := n.kids[byte(c)]; c != 0 && k != nil {
					place(k, base^c, uint32(c))
				}
			}
		}
		units[pos] = u
	}
	place(root, 0, 0)
	// what is unused must not look like a child of any node
	for b := 0; b < len(units); b += 256 {
		free := b
		for bases[free] && free < b+255 {
			free++
		}
		for i := b; i < b+256; i++ {
			if !used[i] {
				units[i] = uint32(i^free) & 255
				if r.Intn(2) == 0 || free == b+255 {
					units[i] = 1<<31 | uint32(r.Intn(1<<20))
				}
			}
		}
	}
	out := binary.LittleEndian.AppendUint32(nil, uint32(4*len(units)))
	for _, u := range units {
		out = binary.LittleEndian.AppendUint32(out, u)
	}
	return append(out, text...)
}

// ReadCharsMap lists the entries of a map in binary form.
func ReadCharsMap(data []byte) CharsMap {
	n := int(binary.LittleEndian.Uint32(data)) / 4
	unit := func(i int) uint32 { return binary.LittleEndian.Uint32(data[4+4*i:]) }
	text := data[4+4*n:]
	offset := func(u uint32) int {
		if u&(1<<9) != 0 {
			return int(u>>10) << 8
		}
		return int(u >> 10)
	}
	m := CharsMap{}
	var walk func(base int, key []byte)
	walk = func(base int, key []byte) {
		for c := 1; c < 256; c++ {
			p := base ^ c
			if p >= n {
				continue
			}
			u := unit(p)
			if u>>31 != 0 || u&255 != uint32(c) {
				continue
			}
			k := append(append([]byte{}, key...), byte(c))
			next := p ^ offset(u)
			if u&(1<<8) != 0 {
				v := int(unit(next) &^ (1 << 31))
				e := v
				for e < len(text) && text[e] != 0 {
					e++
				}
				m[string(k)] = string(text[v:e])
			}
			if len(k) < 500 {
				walk(next, k)
			}
		}
	}
	walk(offset(unit(0)), nil)
	return m
}
