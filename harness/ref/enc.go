package ref

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// T is one token of an encoding.
type T struct {
	Id, Type   int
	Tok        string
	S, E       int
	Spec, Attn int
	Word       int // -1: none
	Seq        int // -1: of no sequence
}

// Enc is an encoding: its tokens and those of its overflowing parts.
type Enc struct {
	T    []T
	Over [][]T
}

func (e *Enc) String() string { return Show(e.T) + over(e.Over) }

func over(o [][]T) string {
	s := ""
	for _, x := range o {
		s += "\n   over " + Show(x)
	}
	return s
}

// Show prints tokens.
func Show(ts []T) string {
	var b strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&b, " %d:%q[%d,%d]w%d t%d s%d a%d q%d", t.Id, t.Tok, t.S, t.E, t.Word, t.Type, t.Spec, t.Attn, t.Seq)
	}
	return b.String()
}

// Tokenized turns tokenized pieces into tokens of an encoding.
func Tokenized(ps []Piece, toks [][]Tok, typeId, word int) []T {
	var out []T
	for i, p := range ps {
		w := word
		if w < 0 {
			w = i
		}
		var at []int // the character each byte of the piece belongs to
		for ci, c := range p.S {
			for k := 0; k < utf8.RuneLen(c.R); k++ {
				at = append(at, ci)
			}
		}
		for _, t := range toks[i] {
			s, e := 0, 0
			if t.S < t.E {
				s, e = p.S[at[t.S]].S, p.S[at[t.E-1]].E
			}
			out = append(out, T{t.Id, typeId, t.Value, s, e, 0, 1, w, typeId})
		}
	}
	return out
}

// Window cuts tokens: the first max of them, then windows of max tokens that repeat the
// last stride tokens of the window before.
func Window(ts []T, max, stride int) Enc {
	if len(ts) <= max {
		return Enc{T: ts}
	}
	if max <= 0 {
		return Enc{Over: [][]T{ts}}
	}
	stride = min(stride, max-1)
	e := Enc{T: ts[:max:max]}
	for at := max; at < len(ts); at += max - stride {
		e.Over = append(e.Over, append([]T{}, ts[at-stride:min(at+max-stride, len(ts))]...))
	}
	return e
}

// Cat puts b behind a; the overflowing parts are those of every combination but the one of
// both first parts.
func Cat(a, b Enc) Enc {
	j := func(x, y []T) []T { return append(append([]T{}, x...), y...) }
	out := Enc{T: j(a.T, b.T)}
	for _, o := range a.Over {
		out.Over = append(out.Over, j(o, b.T))
		for _, p := range b.Over {
			out.Over = append(out.Over, j(o, p))
		}
	}
	for _, p := range b.Over {
		out.Over = append(out.Over, j(a.T, p))
	}
	return out
}

// Wrap changes every part of an encoding.
func (e Enc) Wrap(f func([]T) []T) Enc {
	out := Enc{T: f(e.T)}
	for _, o := range e.Over {
		out.Over = append(out.Over, f(o))
	}
	return out
}

// Special is a special token of a processor.
func Special(id int, tok string, typeId int) T { return T{id, typeId, tok, 0, 0, 1, 1, -1, -1} }

// Post is a post-processor.
type Post struct {
	Added   func(pair bool) int
	Process func(a Enc, b *Enc, special bool) Enc
	// Tracks says that the processor keeps track of the sequence of each token.
	Tracks bool
	// LooseTypes says that the type ids of overflowing parts are unspecified.
	LooseTypes bool
}

func plain(a Enc, b *Enc) Enc {
	if b == nil {
		return a
	}
	return Cat(a, *b)
}

func surround(pre, post []T) func([]T) []T {
	return func(ts []T) []T { return append(append(append([]T{}, pre...), ts...), post...) }
}

func BertPost(sepTok string, sep int, clsTok string, cls int) *Post {
	return &Post{
		Added: func(pair bool) int {
			if pair {
				return 3
			}
			return 2
		},
		Process: func(a Enc, b *Enc, special bool) Enc {
			if !special {
				return plain(a, b)
			}
			a = a.Wrap(surround([]T{Special(cls, clsTok, 0)}, []T{Special(sep, sepTok, 0)}))
			if b == nil {
				return a
			}
			return Cat(a, b.Wrap(surround(nil, []T{Special(sep, sepTok, 1)})))
		},
		Tracks: true,
	}
}

// Trim takes the whitespace of byte-level tokens out of their offsets.
func Trim(prefix bool) func([]T) []T {
	return func(ts []T) []T {
		out := append([]T{}, ts...)
		for i := range out {
			t := &out[i]
			l := len([]rune(t.Tok)) - len([]rune(strings.TrimLeft(t.Tok, "Ġ")))
			r := len([]rune(t.Tok)) - len([]rune(strings.TrimRight(t.Tok, "Ġ")))
			if i == 0 && prefix && l == 1 {
				l = 0
			}
			s, e := t.S, t.E
			s = min(s+l, e)
			if e >= r {
				e = max(e-r, s)
			}
			t.S, t.E = s, e
		}
		return out
	}
}

func RobertaPost(sepTok string, sep int, clsTok string, cls int, trim, prefix bool) *Post {
	return &Post{
		Added: func(pair bool) int {
			if pair {
				return 4
			}
			return 2
		},
		Process: func(a Enc, b *Enc, special bool) Enc {
			if trim {
				a = a.Wrap(Trim(prefix))
				if b != nil {
					x := b.Wrap(Trim(prefix))
					b = &x
				}
			}
			if !special {
				return plain(a, b)
			}
			a = a.Wrap(surround([]T{Special(cls, clsTok, 0)}, []T{Special(sep, sepTok, 0)}))
			if b == nil {
				return a
			}
			return Cat(a, b.Wrap(surround([]T{Special(sep, sepTok, 1)}, []T{Special(sep, sepTok, 1)})))
		},
		Tracks: true,
	}
}

func ByteLevelPost(trim, prefix bool) *Post {
	return &Post{
		Added: func(bool) int { return 0 },
		Process: func(a Enc, b *Enc, special bool) Enc {
			if trim {
				a = a.Wrap(Trim(prefix))
				if b != nil {
					x := b.Wrap(Trim(prefix))
					b = &x
				}
			}
			return plain(a, b)
		},
		Tracks: true,
	}
}

// TPiece is a piece of a template: a sequence (0 or 1) or the tokens of a special token.
type TPiece struct {
	Seq  int // -1: special
	Toks []Tok
	Type int
}

func TemplatePost(single, pair []TPiece) *Post {
	count := func(ps []TPiece) int {
		n := 0
		for _, p := range ps {
			n += len(p.Toks)
		}
		return n
	}
	return &Post{
		Added: func(p bool) int {
			if p {
				return count(pair)
			}
			return count(single)
		},
		Process: func(a Enc, b *Enc, special bool) Enc {
			t := single
			if b != nil {
				t = pair
			}
			var out *Enc
			for _, p := range t {
				var e Enc
				switch {
				case p.Seq == 0:
					e = a
				case p.Seq == 1:
					e = *b
				case !special:
					continue
				default:
					for _, k := range p.Toks {
						e.T = append(e.T, Special(k.Id, k.Value, p.Type))
					}
				}
				if p.Seq >= 0 {
					e = e.Wrap(func(ts []T) []T {
						x := append([]T{}, ts...)
						for i := range x {
							x[i].Type = p.Type
						}
						return x
					})
				}
				if out == nil {
					out = &e
				} else {
					x := Cat(*out, e)
					out = &x
				}
			}
			if out == nil {
				return Enc{}
			}
			return *out
		},
		Tracks:     true,
		LooseTypes: true,
	}
}

// SeqPost runs processors that add no tokens on each sequence alone, and the last one on both.
func SeqPost(ps ...*Post) *Post {
	out := &Post{
		Added: func(pair bool) int {
			n := 0
			for _, p := range ps {
				n += p.Added(pair)
			}
			return n
		},
		Process: func(a Enc, b *Enc, special bool) Enc {
			for i, p := range ps {
				if i == len(ps)-1 {
					return p.Process(a, b, special)
				}
				a = p.Process(a, nil, special)
				if b != nil {
					x := p.Process(*b, nil, special)
					b = &x
				}
			}
			return plain(a, b)
		},
	}
	for _, p := range ps {
		out.Tracks = out.Tracks || p.Tracks
		out.LooseTypes = out.LooseTypes || p.LooseTypes
	}
	return out
}

// Truncation.
const (
	LongestFirst = iota
	OnlyFirst
	OnlySecond
)

type Trunc struct{ Max, Stride, Strategy int }

// Cut truncates a pair of sequences to max tokens in all. ok is false where it is impossible.
func (t Trunc) Cut(a, b []T, hasB bool, max int) (x, y Enc, ok bool) {
	n := len(a) + len(b)
	if n <= max {
		return Enc{T: a}, Enc{T: b}, true
	}
	na, nb := len(a), len(b)
	switch t.Strategy {
	case LongestFirst:
		for i := n; i > max; i-- {
			if na > nb {
				na--
			} else {
				nb--
			}
		}
	case OnlyFirst:
		na -= n - max
		if na <= 0 {
			return x, y, false
		}
	case OnlySecond:
		nb -= n - max
		if !hasB || nb <= 0 {
			return x, y, false
		}
	}
	return Window(a, na, t.Stride), Window(b, nb, t.Stride), true
}

// Padding.
type Pad struct {
	Fixed      int // -1: to the longest of the batch
	Left       bool
	Id, TypeId int
	Tok        string
}

func (p Pad) To(n int, ts []T) []T {
	out := []T{}
	if !p.Left {
		out = append(out, ts...)
	}
	for i := len(ts); i < n; i++ {
		out = append(out, T{p.Id, p.TypeId, p.Tok, 0, 0, 1, 0, -1, -1})
	}
	if p.Left {
		out = append(out, ts...)
	}
	return out
}

// All pads a batch.
func (p Pad) All(es []Enc) []Enc {
	n := p.Fixed
	if n < 0 {
		for _, e := range es {
			n = max(n, len(e.T))
		}
	}
	var out []Enc
	for _, e := range es {
		out = append(out, e.Wrap(func(ts []T) []T { return p.To(n, ts) }))
	}
	return out
}

// Pipe is a whole tokenizer.
type Pipe struct {
	Norm  Norm
	PTs   []PT
	Chars bool // offsets in characters
	Model Model
	Added *AddedVocab
	Post  *Post
	Trunc *Trunc
	Pad   *Pad
	Dec   Dec // nil: joined by spaces
}

// Pieces is the text after added tokens, normalization and pre-tokenization.
func (p *Pipe) Pieces(text string) []Piece {
	ps := p.Added.Pieces(text, p.Norm)
	for _, pt := range p.PTs {
		ps = Apply(pt, ps)
	}
	return ps
}

// One encodes one text. ok is false where the tokenizer must answer with an error.
func (p *Pipe) One(text string, typeId, word int) ([]T, bool) {
	ps := p.Pieces(text)
	var toks [][]Tok
	for _, q := range ps {
		if q.Tok != nil {
			toks = append(toks, []Tok{*q.Tok})
			continue
		}
		ts, ok := p.Model(q.S.String())
		if !ok {
			return nil, false
		}
		toks = append(toks, ts)
	}
	ts := Tokenized(ps, toks, typeId, word)
	if p.Chars {
		ts = ToChars(text, ts)
	}
	return ts, true
}

// Input is a text, or words.
type Input struct {
	Text  string
	Words []string
	IsPre bool
}

func (p *Pipe) Input(in Input, typeId int) ([]T, bool) {
	if !in.IsPre {
		return p.One(in.Text, typeId, -1)
	}
	var out []T
	for i, w := range in.Words {
		ts, ok := p.One(w, typeId, i)
		if !ok {
			return nil, false
		}
		out = append(out, ts...)
	}
	return out, true
}

// Encode is the whole of it. cut is false where truncation is impossible.
func (p *Pipe) Encode(a Input, b *Input, special bool) (e Enc, ok, cut bool) {
	ta, ok := p.Input(a, 0)
	if !ok {
		return e, false, true
	}
	var tb []T
	if b != nil {
		if tb, ok = p.Input(*b, 1); !ok {
			return e, false, true
		}
	}
	x, y := Enc{T: ta}, Enc{T: tb}
	if p.Trunc != nil && p.Trunc.Max > 0 {
		max := p.Trunc.Max
		n := 0
		if special && p.Post != nil {
			n = p.Post.Added(b != nil)
		}
		if n > 0 && max <= n {
			x, y = Window(ta, 0, 0), Window(tb, 0, 0)
		} else {
			x, y, cut = p.Trunc.Cut(ta, tb, b != nil, max-n)
			if !cut {
				return e, true, false
			}
		}
	}
	var py *Enc
	if b != nil {
		py = &y
	}
	if p.Post != nil {
		e = p.Post.Process(x, py, special)
	} else {
		e = plain(x, py)
	}
	if p.Pad != nil {
		e = p.Pad.All([]Enc{e})[0]
	}
	return e, true, true
}

// ToChars turns the byte offsets of tokens of a text into offsets in characters.
func ToChars(text string, ts []T) []T {
	out := append([]T{}, ts...)
	for i := range out {
		if out[i].Spec == 0 {
			out[i].S = utf8.RuneCountInString(text[:out[i].S])
			out[i].E = utf8.RuneCountInString(text[:out[i].E])
		}
	}
	return out
}
