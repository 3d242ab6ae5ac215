package ref

import (
	"strings"
	"unicode"
)

// PT is a pre-tokenizer on one piece; idx is the place of the piece among all pieces of the text.
type PT func(idx int, s Str) []Str

// Apply runs a pre-tokenizer on every piece that is not a token yet. Pieces left with no
// character disappear.
func Apply(pt PT, ps []Piece) []Piece {
	var out []Piece
	for i, p := range ps {
		if p.Tok != nil {
			out = append(out, p)
			continue
		}
		for _, s := range pt(i, p.S) {
			if len(s) > 0 {
				out = append(out, Piece{S: s})
			}
		}
	}
	return out
}

func PatPT(p Pattern, behavior int) PT {
	return func(_ int, s Str) []Str { return SplitBy(s, p, behavior) }
}

func goSpace(r rune) bool { return r == ' ' || r == '\t' || r == '\n' || r == '\f' || r == '\r' }

func BertPT(_ int, s Str) []Str {
	var out []Str
	for _, w := range SplitBy(s, RunPat(goSpace), Removed) {
		out = append(out, SplitBy(w, FnPat(Punct), Isolated)...)
	}
	return out
}

var WhitespaceSplitPT = PatPT(FnPat(BertSpace), Removed)

func wordRune(r rune) bool {
	return unicode.In(r, unicode.L, unicode.M, unicode.Nd, unicode.Nl, unicode.Pc)
}

// WideSpace is any whitespace, of any script.
func WideSpace(r rune) bool {
	return goSpace(r) || r == '\v' || r == 0x85 || unicode.Is(unicode.Z, r)
}

// WhitespacePT takes runs of word characters, and runs of characters that are neither
// word characters nor whitespace.
func WhitespacePT(_ int, s Str) []Str {
	cls := func(r rune) int {
		switch {
		case wordRune(r):
			return 1
		case WideSpace(r):
			return 0
		}
		return 2
	}
	var out []Str
	for i := 0; i < len(s); {
		j := i
		for j < len(s) && cls(s[j].R) == cls(s[i].R) {
			j++
		}
		if cls(s[i].R) != 0 {
			out = append(out, s[i:j])
		}
		i = j
	}
	return out
}

func PunctuationPT(behavior int) PT { return PatPT(FnPat(Punct), behavior) }

func DigitsPT(individual bool) PT {
	b := Contiguous
	if individual {
		b = Isolated
	}
	return PatPT(FnPat(unicode.IsNumber), b)
}

func DelimiterPT(d rune) PT {
	return PatPT(FnPat(func(r rune) bool { return r == d }), Removed)
}

const (
	Never = iota
	First
	Always
)

func MetaspacePT(rep string, scheme int) PT {
	return func(idx int, s Str) []Str {
		s = Replace(FnPat(goSpace), rep)(s)
		if scheme == Always || scheme == First && idx == 0 {
			if !strings.HasPrefix(s.String(), rep) {
				s = Prepend(rep)(s)
			}
		}
		return SplitBy(s, StrPat(rep), MergedWithNext)
	}
}

// ScriptPT cuts where the script changes; a space is of the script before it.
func ScriptPT(_ int, s Str) []Str {
	script := func(r rune) string {
		if r == 0x30fc {
			return "Han"
		}
		if r == ' ' {
			return "Any"
		}
		for name, t := range unicode.Scripts {
			if unicode.Is(t, r) {
				if name == "Hiragana" || name == "Katakana" {
					return "Han"
				}
				return name
			}
		}
		return ""
	}
	var out []Str
	last := ""
	start := -1 // spaces in front of the first character with a script disappear
	for i, c := range s {
		sc := script(c.R)
		if sc == "Any" || sc == last {
			continue
		}
		if start >= 0 {
			out = append(out, s[start:i])
		}
		start, last = i, sc
	}
	if start >= 0 {
		out = append(out, s[start:])
	}
	return out
}

// GPT2Pat is GPT-2's pattern, as a scanner.
func GPT2Pat(s Str) []Match {
	other := func(r rune) bool { return !goSpace(r) && !unicode.IsLetter(r) && !unicode.IsNumber(r) }
	run := func(i int, f func(rune) bool) int {
		j := i
		if j < len(s) && s[j].R == ' ' {
			j++
		}
		k := j
		for k < len(s) && f(s[k].R) {
			k++
		}
		if k == j {
			return i
		}
		return k
	}
	var ms [][2]int
	for i := 0; i < len(s); {
		end := i
		if s[i].R == '\'' {
			rest := s[i:min(i+3, len(s))].String()
			for _, c := range []string{"'s", "'t", "'re", "'ve", "'m", "'ll", "'d"} {
				if strings.HasPrefix(rest, c) {
					end = i + len(c)
					break
				}
			}
		}
		for _, f := range []func(rune) bool{unicode.IsLetter, unicode.IsNumber, other} {
			if end == i {
				end = run(i, f)
			}
		}
		if end == i {
			i++
			continue
		}
		ms = append(ms, [2]int{i, end})
		i = end
	}
	return fill(len(s), ms)
}

// ByteChar is the visible character that stands for a byte.
var ByteChar = func() (t [256]rune) {
	n := rune(0)
	for b := 0; b < 256; b++ {
		if b >= 33 && b <= 126 || b >= 161 && b <= 172 || b >= 174 {
			t[b] = rune(b)
		} else {
			t[b] = 256 + n
			n++
		}
	}
	return
}()

// CharByte is the inverse of ByteChar.
var CharByte = func() map[rune]byte {
	m := map[rune]byte{}
	for b, r := range ByteChar {
		m[r] = byte(b)
	}
	return m
}()

func ByteLevelPT(prefix bool) PT {
	return func(_ int, s Str) []Str {
		if prefix && (len(s) == 0 || s[0].R != ' ') {
			s = Prepend(" ")(s)
		}
		var out []Str
		for _, w := range SplitBy(s, GPT2Pat, Isolated) {
			var o Str
			for _, c := range w {
				for _, b := range []byte(string(c.R)) {
					o = append(o, Ch{ByteChar[b], c.S, c.E})
				}
			}
			out = append(out, o)
		}
		return out
	}
}
