package ref

import (
	"fmt"
	"math"
	"slices"
	"strings"
	"unicode/utf8"
)

// Model turns one piece into tokens; ok is false where the model must answer with an error.
type Model func(s string) (toks []Tok, ok bool)

// BPE merges, again and again, the adjacent pair of lowest rank, the leftmost one first.
type BPE struct {
	Vocab          map[string]int
	Merges         [][2]string // by rank
	Prefix, Suffix string
	Unk            string
}

func (b *BPE) ids() (byId map[int]string, ranks map[[2]int]int, news map[[2]int]int) {
	byId = map[int]string{}
	for k, v := range b.Vocab {
		byId[v] = k
	}
	ranks = map[[2]int]int{}
	news = map[[2]int]int{}
	for r, m := range b.Merges {
		p := [2]int{b.Vocab[m[0]], b.Vocab[m[1]]}
		ranks[p] = r
		news[p] = b.Vocab[m[0]+strings.TrimPrefix(m[1], b.Prefix)]
	}
	return
}

// New prepares the model.
func (b *BPE) New() Model {
	byId, ranks, news := b.ids()
	return func(s string) ([]Tok, bool) {
		toks, ok := b.chars(s)
		if !ok {
			return nil, false
		}
		for {
			at, best := -1, math.MaxInt
			for i := 0; i+1 < len(toks); i++ {
				if r, ok := ranks[[2]int{toks[i].Id, toks[i+1].Id}]; ok && r < best {
					at, best = i, r
				}
			}
			if at < 0 {
				break
			}
			n := news[[2]int{toks[at].Id, toks[at+1].Id}]
			m := Tok{n, byId[n], toks[at].S, toks[at+1].E}
			toks = append(toks[:at], append([]Tok{m}, toks[at+2:]...)...)
		}
		return toks, true
	}
}

func (b *BPE) chars(s string) ([]Tok, bool) {
	var toks []Tok
	for i, r := range s {
		e := i + utf8.RuneLen(r)
		v := string(r)
		if i > 0 {
			v = b.Prefix + v
		}
		if e == len(s) {
			v += b.Suffix
		}
		id, ok := b.Vocab[v]
		if !ok {
			if id, ok = b.Vocab[b.Unk]; !ok || b.Unk == "" {
				return nil, false
			}
			v = b.Unk
		}
		toks = append(toks, Tok{id, v, i, e})
	}
	return toks, true
}

// WordPiece takes the longest vocabulary entry from the left, again and again.
func WordPiece(vocab map[string]int, unk, prefix string, maxChars int) Model {
	return func(s string) ([]Tok, bool) {
		uid, has := vocab[unk]
		whole := []Tok{{uid, unk, 0, len(s)}}
		if utf8.RuneCountInString(s) > maxChars {
			return whole, has
		}
		var toks []Tok
		for at := 0; at < len(s); {
			found := false
			for e := len(s); e > at; e-- {
				v := s[at:e]
				if !utf8.ValidString(v) {
					continue
				}
				if at > 0 {
					v = prefix + v
				}
				if id, ok := vocab[v]; ok {
					toks = append(toks, Tok{id, v, at, e})
					at, found = e, true
					break
				}
			}
			if !found {
				return whole, has
			}
		}
		return toks, true
	}
}

func WordLevel(vocab map[string]int, unk string) Model {
	return func(s string) ([]Tok, bool) {
		if id, ok := vocab[s]; ok {
			return []Tok{{id, s, 0, len(s)}}, true
		}
		id, ok := vocab[unk]
		return []Tok{{id, unk, 0, len(s)}}, ok
	}
}

// Uni is a unigram language model over pieces.
type Uni struct {
	Toks   []string
	Scores []float64
	Unk    int // -1: none
	Fuse   bool
	Bytes  bool
}

const unkPenalty = 10

// Min is the lowest score of the vocabulary.
func (u *Uni) Min() float64 {
	m := math.Inf(1)
	for _, s := range u.Scores {
		m = min(m, s)
	}
	return m
}

// Ids gives each token its id: the last entry of the vocabulary that names it.
func (u *Uni) Ids() map[string]int {
	m := map[string]int{}
	for i, t := range u.Toks {
		m[t] = i
	}
	return m
}

// Best gives the score of the best segmentation of s, and one such segmentation as ends of
// the parts; unknown parts are single characters with no entry of their own.
// ok is false if s has no segmentation.
func (u *Uni) Best(s string) (score float64, ok bool) {
	ids, most := u.Ids(), u.longest()
	best := make([]float64, len(s)+1)
	for i := range best {
		best[i] = math.Inf(-1)
	}
	best[0] = 0
	at := starts(s)
	for e := 1; e <= len(s); e++ {
		for b := max(0, e-most); b < e && at[e]; b++ {
			if math.IsInf(best[b], -1) {
				continue
			}
			if c, ok := u.part(ids, s[b:e]); ok && best[b]+c > best[e] {
				best[e] = best[b] + c
			}
		}
	}
	return best[len(s)], !math.IsInf(best[len(s)], -1)
}

// longest is the length of the longest part there can be, in bytes.
func (u *Uni) longest() int {
	m := utf8.UTFMax
	for _, t := range u.Toks {
		m = max(m, len(t))
	}
	return m
}

// part is what a part of a segmentation scores, if it can be one.
func (u *Uni) part(ids map[string]int, p string) (float64, bool) {
	if id, ok := ids[p]; ok {
		return u.Scores[id], true
	}
	if utf8.RuneCountInString(p) == 1 && (u.Unk >= 0 || u.Bytes) {
		return u.Min() - unkPenalty, true
	}
	return 0, false
}

// starts says where in s a character starts; a byte that belongs to no character is one.
func starts(s string) []bool {
	at := make([]bool, len(s)+1)
	for i := range s {
		at[i] = true
	}
	at[len(s)] = true
	return at
}

// Check judges a tokenization of s: the tokens cover s in order, each is what the vocabulary
// says (or unknown, where that is due), and no segmentation scores better.
func (u *Uni) Check(s string, toks []Tok) error {
	ids := u.Ids()
	at := 0
	total := 0.0
	for i := 0; i < len(toks); i++ {
		t := toks[i]
		if t.S != at || t.E < t.S || t.E > len(s) {
			return fmt.Errorf("token %d has offsets [%d,%d], the one before ends at %d", i, t.S, t.E, at)
		}
		p := s[t.S:t.E]
		if id, ok := ids[p]; ok && t.Id == id && t.Value == p {
			total += u.Scores[id]
			at = t.E
			continue
		}
		// unknown part, possibly fused or in bytes
		if u.Bytes && utf8.RuneCountInString(p) == 1 {
			all := true
			for k := 0; k < len(p); k++ {
				if _, ok := ids[fmt.Sprintf("<0x%02X>", p[k])]; !ok {
					all = false
				}
			}
			if all {
				for k := 0; k < len(p); k++ {
					v := fmt.Sprintf("<0x%02X>", p[k])
					if i+k >= len(toks) || toks[i+k] != (Tok{ids[v], v, t.S, t.E}) {
						return fmt.Errorf("character %q at %d should fall back to its bytes", p, t.S)
					}
				}
				if _, ok := ids[p]; ok {
					return fmt.Errorf("character %q has an entry and should not fall back", p)
				}
				total += u.Min() - unkPenalty
				i += len(p) - 1
				at = t.E
				continue
			}
		}
		if u.Unk < 0 || t.Id != u.Unk {
			return fmt.Errorf("token %d (%+v) is neither the entry of %q nor unknown", i, t, p)
		}
		n := 0
		for k := 0; k < len(p); n++ {
			_, w := utf8.DecodeRuneInString(p[k:])
			r := p[k : k+w]
			if _, ok := ids[r]; ok {
				return fmt.Errorf("unknown token over %q which has an entry", r)
			}
			if u.Bytes && u.Fallback(ids, r) {
				return fmt.Errorf("unknown token over %q which has byte entries", r)
			}
			total += u.Min() - unkPenalty
			k += w
		}
		if n > 1 && !u.Fuse {
			return fmt.Errorf("unknown token over %q without fusing", p)
		}
		if t.Value != p && !(t.Value == u.Toks[u.Unk]) {
			return fmt.Errorf("unknown token named %q over %q", t.Value, p)
		}
		if u.Fuse && i+1 < len(toks) && toks[i+1].Id == u.Unk && t.E < len(s) {
			nx := s[toks[i+1].S:toks[i+1].E]
			if _, ok := ids[nx]; !ok {
				return fmt.Errorf("two unknown tokens next to each other, not fused")
			}
		}
		at = t.E
	}
	if at != len(s) {
		return fmt.Errorf("the tokens end at %d of %d", at, len(s))
	}
	best, _ := u.Best(s)
	if total < best-1e-9*(1+math.Abs(best)) {
		return fmt.Errorf("the tokens score %v, the best segmentation scores %v", total, best)
	}
	return nil
}

func (u *Uni) Fallback(ids map[string]int, c string) bool {
	for k := 0; k < len(c); k++ {
		if _, ok := ids[fmt.Sprintf("<0x%02X>", c[k])]; !ok {
			return false
		}
	}
	return true
}

// New is the tokenizer of a unigram model; of equally good segmentations it takes the one
// whose last part starts first.
func (u *Uni) New() Model {
	ids, most := u.Ids(), u.longest()
	return func(s string) ([]Tok, bool) {
		if s == "" {
			return nil, true
		}
		best := make([]float64, len(s)+1)
		from := make([]int, len(s)+1)
		for i := range best {
			best[i] = math.Inf(-1)
		}
		best[0] = 0
		at := starts(s)
		for e := 1; e <= len(s); e++ {
			for b := max(0, e-most); b < e && at[e]; b++ {
				if math.IsInf(best[b], -1) {
					continue
				}
				if c, ok := u.part(ids, s[b:e]); ok && best[b]+c > best[e] {
					best[e], from[e] = best[b]+c, b
				}
			}
		}
		if math.IsInf(best[len(s)], -1) {
			return nil, false
		}
		var parts [][2]int
		for e := len(s); e > 0; e = from[e] {
			parts = append(parts, [2]int{from[e], e})
		}
		slices.Reverse(parts)
		var toks []Tok
		for _, p := range parts {
			v := s[p[0]:p[1]]
			id, ok := ids[v]
			switch {
			case ok:
				toks = append(toks, Tok{id, v, p[0], p[1]})
			case u.Bytes && u.Fallback(ids, v):
				for k := 0; k < len(v); k++ {
					b := fmt.Sprintf("<0x%02X>", v[k])
					toks = append(toks, Tok{ids[b], b, p[0], p[1]})
				}
			case u.Unk >= 0:
				if n := len(toks); u.Fuse && n > 0 && toks[n-1].Id == u.Unk {
					toks[n-1].E = p[1]
					if !u.Bytes {
						toks[n-1].Value += v
					}
					continue
				}
				if u.Bytes {
					v = u.Toks[u.Unk]
				}
				toks = append(toks, Tok{u.Unk, v, p[0], p[1]})
			}
		}
		return toks, true
	}
}
