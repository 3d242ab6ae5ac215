package gen

import (
	"encoding/base64"
	"fmt"
	"math/rand"
	"regexp"
	"strings"
	"unicode"

	"github.com/rivo/uniseg"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/spm"
	"golang.org/x/text/unicode/norm"

	"verif/harness/ref"
)

// J is a piece of configuration.
type J = map[string]any

// Norm is a normalizer with its reference.
type Norm struct {
	Name string
	Real normalizer.Normalizer
	Ref  ref.Norm
	JSON J // nil: has none
}

// Pat is a pattern with its reference.
type Pat struct {
	Name string
	Real normalizer.Pattern
	Ref  ref.Pattern
	JSON J
}

func asciiDigit(r rune) bool { return r >= '0' && r <= '9' }
func goSpace(r rune) bool    { return r == ' ' || r == '\t' || r == '\n' || r == '\f' || r == '\r' }
func vowel(r rune) bool      { return r == 'a' || r == 'e' || r == 'i' || r == 'o' || r == 'u' }

var literals = []string{"a", "e", "in", "th", " ", "  ", "aa", ".", "é", "中", "##", "▁", "l", "ab", "[", "\\s", "a+", "'", "-"}

// Pattern makes a pattern. cfg asks for one with a configuration.
func Pattern(r *rand.Rand, cfg bool) Pat {
	n := 8
	if cfg {
		n = 6
	}
	switch r.Intn(n) {
	case 0, 1:
		l := Pick(r, literals...)
		return Pat{fmt.Sprintf("string %q", l), normalizer.NewStringPattern(l), ref.StrPat(l), J{"String": l}}
	case 2, 3, 4, 5:
		type rx struct {
			e string
			p ref.Pattern
		}
		x := Pick(r,
			rx{`\s+`, ref.RunPat(goSpace)}, rx{`\s`, ref.FnPat(goSpace)}, rx{`[0-9]`, ref.FnPat(asciiDigit)},
			rx{`\d+`, ref.RunPat(asciiDigit)}, rx{`[aeiou]+`, ref.RunPat(vowel)}, rx{`\p{L}+`, ref.RunPat(unicode.IsLetter)},
			rx{`[^\p{L}\p{N}]`, ref.FnPat(func(r rune) bool { return !unicode.IsLetter(r) && !unicode.IsNumber(r) })},
			rx{`\p{Lu}`, ref.FnPat(unicode.IsUpper)}, rx{`l+`, ref.RunPat(func(r rune) bool { return r == 'l' })},
			rx{`\p{M}+`, ref.RunPat(unicode.IsMark)},
		)
		if r.Intn(4) == 0 {
			x.e = Pick(r, `(?i)the|ing`, `'s|'t|\p{L}+|\d{1,3}`, `.`, `\w{2}`, `[^\s]\s`, `(?s).+?`, `a(a|b)*`, `^.`, `.$`, `\S+\s*`, `[[:punct:]]+`, `\s+$`)
			x.p = ref.RePat(regexp.MustCompile(x.e))
		}
		return Pat{"regex " + x.e, normalizer.NewRegexpPattern(x.e), x.p, J{"Regex": x.e}}
	case 6:
		c := Pick(r, 'a', ' ', 'é', '中', '.', 'l', '\u0301')
		return Pat{fmt.Sprintf("rune %q", c), normalizer.NewRunePattern(c), ref.FnPat(func(r rune) bool { return r == c }), nil}
	default:
		type fn struct {
			n string
			f func(rune) bool
		}
		x := Pick(r, fn{"letter", unicode.IsLetter}, fn{"space", unicode.IsSpace}, fn{"punct", ref.Punct}, fn{"mark", unicode.IsMark}, fn{"odd", func(r rune) bool { return r%2 == 1 }})
		return Pat{"fn " + x.n, normalizer.NewFnPattern(x.f), ref.FnPat(x.f), nil}
	}
}

// SplitPattern makes a pattern to split at, which may match nothing between two characters.
func SplitPattern(r *rand.Rand, cfg bool) Pat {
	if r.Intn(6) > 0 {
		return Pattern(r, cfg)
	}
	e := Pick(r, `\b`, `\B`, `l*`, `a*`, `^`, `$`, `x?`, `\s*`, `(the|)`)
	return Pat{"regex " + e, normalizer.NewRegexpPattern(e), ref.RePat(regexp.MustCompile(e)), J{"Regex": e}}
}

// Normalizer makes one normalizer.
func Normalizer(r *rand.Rand, cfg bool) Norm {
	b := func() bool { return r.Intn(2) == 0 }
	n := 15
	if cfg {
		n = 12
	}
	switch r.Intn(n) {
	case 0, 1:
		c, l, h, a := b(), b(), b(), b()
		return Norm{fmt.Sprintf("bert(clean=%v lower=%v chinese=%v accents=%v)", c, l, h, a),
			normalizer.NewBertNormalizer(c, l, h, a), ref.Bert(c, l, h, a),
			J{"type": "BertNormalizer", "clean_text": c, "lowercase": l, "handle_chinese_chars": h, "strip_accents": a}}
	case 2, 3:
		type uf struct {
			n string
			f norm.Form
			r normalizer.Normalizer
		}
		x := Pick(r, uf{"NFC", norm.NFC, normalizer.NewNFC()}, uf{"NFD", norm.NFD, normalizer.NewNFD()}, uf{"NFKC", norm.NFKC, normalizer.NewNFKC()}, uf{"NFKD", norm.NFKD, normalizer.NewNFKD()})
		if !cfg && b() {
			x.r = normalizer.NewUnicodeNormalizer(x.f)
		}
		return Norm{x.n, x.r, ref.Form(x.f), J{"type": x.n}}
	case 4:
		return Norm{"lowercase", normalizer.Lowercase(), ref.Lowercase, J{"type": "Lowercase"}}
	case 5:
		l, rr := b(), b()
		return Norm{fmt.Sprintf("strip(%v,%v)", l, rr), normalizer.NewStrip(l, rr), ref.Strip(l, rr),
			J{"type": Pick(r, "Strip", "StripNormalizer"), "strip_left": l, "strip_right": rr}}
	case 6:
		return Norm{"stripaccents", normalizer.NewStripAccents(), ref.StripAccents, J{"type": "StripAccents"}}
	case 7, 8:
		var p Pat
		for {
			p = Pattern(r, true)
			if p.JSON != nil {
				break
			}
		}
		content := Pick(r, "", " ", "x", "▁", "éà", "[X]", "中", "  ", "$1")
		typ, src := normalizer.String, ""
		if s, ok := p.JSON["String"]; ok {
			src = s.(string)
		} else {
			typ, src = normalizer.Regex, p.JSON["Regex"].(string)
		}
		return Norm{fmt.Sprintf("replace(%s by %q)", p.Name, content), normalizer.NewReplace(typ, src, content), ref.Replace(p.Ref, content),
			J{"type": "Replace", "pattern": p.JSON, "content": content}}
	case 9:
		p := Pick(r, "▁", " ", "é中", "a", "")
		return Norm{fmt.Sprintf("prepend %q", p), normalizer.NewPrepend(p), ref.Prepend(p), J{"type": "Prepend", "prepend": p}}
	case 10:
		var ns []normalizer.Normalizer
		var rs []ref.Norm
		var js []any
		name := "sequence("
		ok := true
		for i := r.Intn(4); i >= 0; i-- {
			x := Normalizer(r, cfg)
			ns, rs = append(ns, x.Real), append(rs, x.Ref)
			js = append(js, x.JSON)
			ok = ok && x.JSON != nil
			name += x.Name + "; "
		}
		j := J{"type": "Sequence", "normalizers": js}
		if !ok {
			j = nil
		}
		return Norm{name + ")", normalizer.NewSequence(ns), ref.Seq(rs...), j}
	case 11:
		m := CharsMap(r)
		data := m.Bytes(r)
		real, err := spm.NewPrecompiledFrom(data)
		if err != nil {
			panic(fmt.Sprintf("a precompiled map gives an error: %v", err))
		}
		return Norm{fmt.Sprintf("precompiled %+q", m), &normalizer.Precompiled{Precompiled: real}, m.Norm(),
			J{"type": "Precompiled", "precompiled_charsmap": base64.StdEncoding.EncodeToString(data)}}
	case 12:
		l, s := b(), b()
		rs := []ref.Norm{}
		if l {
			rs = append(rs, ref.Lowercase)
		}
		if s {
			rs = append(rs, ref.Strip(true, true))
		}
		var opts []normalizer.DefaultOption
		if !l || b() {
			opts = append(opts, normalizer.WithLowercase(l))
		}
		if !s || b() {
			opts = append(opts, normalizer.WithStrip(s))
		}
		var real normalizer.Normalizer = normalizer.NewDefaultNormalizer(opts...)
		if len(opts) == 0 && b() {
			real = normalizer.NewNormalizer()
		}
		return Norm{fmt.Sprintf("default(lower=%v strip=%v)", l, s), real, ref.Seq(rs...), nil}
	case 13:
		c, l, h, a := b(), b(), b(), b()
		return Norm{fmt.Sprintf("option bert(%v,%v,%v,%v)", c, l, h, a), normalizer.NewNormalizer(normalizer.WithBertNormalizer(c, l, h, a)), ref.Bert(c, l, h, a), nil}
	default:
		f := Pick(r, norm.NFC, norm.NFD, norm.NFKC, norm.NFKD)
		return Norm{fmt.Sprintf("option unicode %d", f), normalizer.NewNormalizer(normalizer.WithUnicodeNormalizer(f)), ref.Form(f), nil}
	}
}

// CharsMap makes the entries of a precompiled map: characters, graphemes, words and their
// beginnings, with replacements of any length.
func CharsMap(r *rand.Rand, texts ...string) ref.CharsMap {
	m := ref.CharsMap{}
	for i := r.Intn(14); i >= 0; i-- {
		t := Word(r)
		if len(texts) > 0 && r.Intn(2) == 0 {
			t = Pick(r, texts...)
		}
		rs := []rune(t)
		if len(rs) == 0 {
			continue
		}
		a := r.Intn(len(rs))
		key := string(rs[a : a+1+r.Intn(min(4, len(rs)-a))])
		switch r.Intn(4) {
		case 0:
			key = string(rs[a])
		case 1:
			g := uniseg.NewGraphemes(t)
			for g.Next() {
				if key = g.Str(); r.Intn(3) == 0 {
					break
				}
			}
		}
		if key == "" || strings.Contains(key, "\x00") {
			continue
		}
		v := Pick(r, "", "", " ", "x", "ab", "éà", "中文字", "e\u0301", "▁", "\u0301")
		if r.Intn(3) == 0 {
			v = strings.ReplaceAll(Word(r), "\x00", "")
		}
		if r.Intn(4) == 0 {
			v = norm.NFKC.String(key)
		}
		m[key] = v
	}
	return m
}
