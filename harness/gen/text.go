// Package gen makes seeded workloads: texts, vocabularies and whole tokenizers, each with
// its reference and, where it has one, its configuration.
package gen

import (
	"math/rand"
	"strings"
)

func Pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

func Chance(r *rand.Rand, p float64) bool { return r.Float64() < p }

var (
	spaces   = []string{" ", " ", " ", " ", "  ", "   ", "\t", "\n", "\r\n", "\u00a0", "\u3000", "\u2003", "\v", "\f", "\u0085", "\u2028"}
	puncts   = []string{".", ",", "!", "?", "'", "\"", "-", "_", "(", ")", "[", "]", "#", "$", "+", "=", "~", "^", "<", ">", "|", "`", "*", "\\", "/", "“", "”", "…", "、", "。", "¿", "—", "÷", "€", "‿"}
	accents  = []string{"é", "è", "ü", "ñ", "Å", "ç", "e\u0301", "u\u0308", "n\u0303", "A\u030a", "o\u0302\u0323", "q\u0301\u0307", "ﬁ", "½", "①", "Ⅷ", "²", "ǅ", "İ", "ß", "Σ", "ſ", "K", "Ω", "각", "\u1100\u1161\u11a8", "ｶﾞ", "㍿", "ﷺ", "ά", "\u0340"}
	scripts  = []string{"中", "文", "字", "東京", "の", "カ", "ー", "ひら", "한국", "ไทย", "ที่", "นี้", "हिन्दी", "العربية", "עברית", "рус", "ский", "ελλ", "\u0e33", "က", "ᚠ", "𠮷", "𝔘", "豈"}
	emojis   = []string{"😀", "👩‍👩‍👧", "🇫🇷", "❤️", "👍🏽", "🏴", "☃"}
	controls = []string{"\x00", "\x01", "\x7f", "\u200b", "\u200d", "\u00ad", "\ufeff", "\ufffd", "\ue000", "\U000e0001", "\u061c", "\u2060"}
	lookout  = []string{"[CLS]", "[SEP]", "[UNK]", "[PAD]", "[MASK]", "<s>", "</s>", "<unk>", "<pad>", "<mask>", "##", "▁", "Ġ", "Ċ", "Ã", "</w>", "<0x41>", "<0xE4>", "n't", "'s", "'re", "'ll", "'D", "|"}
	words    = []string{"the", "The", "hello", "HELLO", "world", "un", "want", "wanted", "runn", "ing", "running", "low", "lower", "lowest", "new", "newer", "wide", "a", "b", "ab", "abc", "aa", "aaa", "aaaa", "abab", "ba", "banana", "Mississippi", "I", "It's", "don't", "we'll", "x", "xyz", "token", "tokenizer", "pre", "tokenize", "is", "in", "12", "3", "2024", "007", "é", "café", "naïve", "0", "9"}
)

// Word makes one chunk of text of any kind.
func Word(r *rand.Rand) string {
	switch k := r.Intn(100); {
	case k < 42:
		return Pick(r, words...)
	case k < 54:
		var b strings.Builder
		for i := r.Intn(8); i >= 0; i-- {
			b.WriteByte(Pick(r, []byte("abcdeABrstno01")...))
		}
		return b.String()
	case k < 64:
		return Pick(r, puncts...)
	case k < 74:
		return Pick(r, accents...)
	case k < 84:
		return Pick(r, scripts...)
	case k < 87:
		return Pick(r, emojis...)
	case k < 90:
		return Pick(r, controls...)
	case k < 95:
		return Pick(r, lookout...)
	case k < 97:
		return strings.Repeat(Pick(r, "a", "ab", "!", "é", "0", "中", "\u0301", " "), 1+r.Intn(30))
	default:
		return RandRunes(r, 1+r.Intn(5))
	}
}

// RandRunes gives characters from anywhere in Unicode.
func RandRunes(r *rand.Rand, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		for {
			lim := Pick(r, 0x80, 0x250, 0x3000, 0x10000, 0x20000, 0x110000)
			c := rune(r.Intn(lim))
			if c >= 0xd800 && c < 0xe000 {
				continue
			}
			b.WriteRune(c)
			break
		}
	}
	return b.String()
}

// Text makes a text. extra chunks come in now and then.
func Text(r *rand.Rand, extra ...string) string {
	switch r.Intn(40) {
	case 0:
		return ""
	case 1:
		return Pick(r, spaces...)
	case 2:
		return strings.Repeat(Word(r)+Pick(r, spaces...), 20+r.Intn(30))
	}
	var b strings.Builder
	if Chance(r, .1) {
		b.WriteString(Pick(r, spaces...))
	}
	for i := r.Intn(12); i >= 0; i-- {
		if len(extra) > 0 && Chance(r, .15) {
			b.WriteString(Pick(r, extra...))
		} else {
			b.WriteString(Word(r))
		}
		if Chance(r, .65) {
			if Chance(r, .8) {
				b.WriteByte(' ')
			} else {
				b.WriteString(Pick(r, spaces...))
			}
		}
	}
	return b.String()
}

// Plain makes a text of ordinary words, that small vocabularies cover well.
func Plain(r *rand.Rand, extra ...string) string {
	var ws []string
	for i := r.Intn(14); i >= 0; i-- {
		if len(extra) > 0 && Chance(r, .2) {
			ws = append(ws, Pick(r, extra...))
		} else {
			ws = append(ws, Pick(r, words...))
		}
	}
	return strings.Join(ws, Pick(r, " ", " ", "", "  "))
}

// Any is Text or Plain.
func Any(r *rand.Rand, extra ...string) string {
	if Chance(r, .45) {
		return Plain(r, extra...)
	}
	return Text(r, extra...)
}

// Seldom is Any and, one time of n, Long.
func Seldom(r *rand.Rand, n int, extra ...string) string {
	if r.Intn(n) == 0 {
		return Long(r, extra...)
	}
	return Any(r, extra...)
}

// Long is a text of some thousand bytes: limits and buffers lie far beyond what Any reaches.
func Long(r *rand.Rand, extra ...string) string {
	n := Pick(r, 1500, 3000, 5000)
	var b strings.Builder
	if r.Intn(4) == 0 {
		u := Pick(r, "a", "ab ", "a,", " ", "é", "中", "in the ", ". ")
		return strings.Repeat(u, 1+n/len(u))
	}
	for b.Len() < n {
		b.WriteString(Any(r, extra...))
		b.WriteString(Pick(r, " ", " ", "\n", ""))
	}
	return b.String()
}
