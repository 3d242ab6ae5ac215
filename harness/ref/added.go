package ref

import (
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Added is one added token.
type Added struct {
	Content                        string
	Special                        bool
	Single, LStrip, RStrip, IsNorm bool
	Id                             int
}

// AddedVocab is the additional vocabulary.
type AddedVocab struct {
	Special, Plain []Added // in the order of registration, those that are looked for in texts
	Map            map[string]int
	MapR           map[int]string
	SpecialSet     map[string]bool
	Size           int // of the model's vocabulary
	Vocab          map[string]int
	byId           map[int]string
}

func NewAddedVocab(model map[string]int, size int) *AddedVocab {
	return &AddedVocab{Map: map[string]int{}, MapR: map[int]string{}, SpecialSet: map[string]bool{}, Size: size, Vocab: model}
}

func (a *AddedVocab) Id(tok string) (int, bool) {
	if id, ok := a.Map[tok]; ok {
		return id, true
	}
	id, ok := a.Vocab[tok]
	return id, ok
}

// Name is the token of an id.
func (a *AddedVocab) Name(id int) (string, bool) {
	if t, ok := a.MapR[id]; ok {
		return t, true
	}
	if a.byId == nil {
		a.byId = map[int]string{}
		for t, i := range a.Vocab {
			a.byId[i] = t
		}
	}
	t, ok := a.byId[id]
	return t, ok
}

// Add adds tokens, and says how many are new.
func (a *AddedVocab) Add(toks []Added, special bool) int {
	n := 0
	for _, t := range toks {
		if t.Content == "" {
			continue
		}
		if special && !a.SpecialSet[t.Content] {
			a.SpecialSet[t.Content] = true
			t.Special = true
			a.Special = append(a.Special, t)
		}
	}
	for _, t := range toks {
		if t.Content == "" {
			continue
		}
		id, ok := a.Id(t.Content)
		if !ok {
			id = a.Size + len(a.Map)
			a.Map[t.Content] = id
			n++
			if !a.SpecialSet[t.Content] {
				a.Plain = append(a.Plain, t)
			}
		}
		a.MapR[id] = t.Content
	}
	return n
}

func wordRuneAdded(r rune) bool {
	return unicode.IsLetter(r) || unicode.IsMark(r) || unicode.IsDigit(r) || unicode.Is(unicode.Pc, r) || r == 0x200c || r == 0x200d
}

func wholeWord(s string, b, e int) bool {
	p, _ := utf8.DecodeLastRuneInString(s[:b])
	f, _ := utf8.DecodeRuneInString(s[b:e])
	l, _ := utf8.DecodeLastRuneInString(s[b:e])
	n, _ := utf8.DecodeRuneInString(s[e:])
	return !(wordRuneAdded(p) && wordRuneAdded(f)) && !(wordRuneAdded(l) && wordRuneAdded(n))
}

type found struct{ idx, s, e, ws, we int }

// extract cuts the tokens out of a text: earliest first, among overlapping ones the one
// registered first.
func (a *AddedVocab) extract(s Str, normalized bool, n Norm) []Piece {
	text := s.String()
	all := append(append([]Added{}, a.Special...), a.Plain...)
	var fs []found
	for idx, t := range all {
		if t.IsNorm != normalized {
			continue
		}
		c := t.Content
		if normalized && n != nil {
			c = n(New(c)).String()
		}
		if c == "" {
			continue
		}
		for at := 0; ; {
			i := strings.Index(text[at:], c)
			if i < 0 {
				break
			}
			b, e := at+i, at+i+len(c)
			if t.Single && !wholeWord(text, b, e) {
				_, w := utf8.DecodeRuneInString(text[b:])
				at = b + w
				continue
			}
			ws, we := b, e
			for t.LStrip && ws > 0 {
				r, w := utf8.DecodeLastRuneInString(text[:ws])
				if !WideSpace(r) {
					break
				}
				ws -= w
			}
			for t.RStrip && we < len(text) {
				r, w := utf8.DecodeRuneInString(text[we:])
				if !WideSpace(r) {
					break
				}
				we += w
			}
			fs = append(fs, found{idx, b, e, ws, we})
			at = we
		}
	}
	sort.SliceStable(fs, func(i, j int) bool {
		if fs[i].s != fs[j].s {
			return fs[i].s < fs[j].s
		}
		return fs[i].idx < fs[j].idx
	})
	var out []Piece
	at := 0
	cut := func(b, e int) Str {
		return s[utf8.RuneCountInString(text[:b]):utf8.RuneCountInString(text[:e])]
	}
	for i := 0; i < len(fs); i++ {
		f := fs[i]
		if f.s < at {
			continue
		}
		for _, o := range fs[i+1:] {
			if o.s < fs[i].e && o.idx < f.idx {
				f = o
			}
		}
		b := max(at, f.ws)
		if at < b {
			out = append(out, Piece{S: cut(at, b)})
		}
		id, _ := a.Id(all[f.idx].Content)
		p := cut(b, f.we)
		out = append(out, Piece{S: p, Tok: &Tok{id, p.String(), 0, f.we - b}})
		at = f.we
	}
	if at < len(text) {
		out = append(out, Piece{S: cut(at, len(text))})
	}
	return out
}

// Pieces cuts a raw text into added tokens and normalized parts.
func (a *AddedVocab) Pieces(text string, n Norm) []Piece {
	var out []Piece
	if len(text) == 0 {
		return nil
	}
	for _, p := range a.extract(New(text), false, nil) {
		if p.Tok != nil {
			out = append(out, p)
			continue
		}
		s := p.S
		base := s[0].S // normalizers see the part alone
		if n != nil {
			s = s.Shift(-base).norm(n).Shift(base)
		}
		if len(s) == 0 {
			continue
		}
		out = append(out, a.extract(s, true, n)...)
	}
	return out
}
