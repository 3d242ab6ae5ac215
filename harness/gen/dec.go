package gen

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode/utf8"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/decoder"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"

	"verif/harness/ref"
)

// Dec is a decoder with its reference.
type Dec struct {
	Name string
	Real tokenizer.Decoder
	Ref  ref.Dec
	JSON J
}

// Decoder makes a decoder, alone or several in sequence.
func Decoder(r *rand.Rand, cfg bool) Dec {
	if r.Intn(4) == 0 {
		var (
			out  Dec
			real []tokenizer.Decoder
			refs []ref.Dec
			js   = []any{}
		)
		for i := r.Intn(4); i >= 0; i-- {
			d := Decoder(r, cfg)
			real, refs, js = append(real, d.Real), append(refs, d.Ref), append(js, d.JSON)
			out.Name += d.Name + "; "
		}
		out.Name = "sequence(" + out.Name + ")"
		out.Real, out.Ref, out.JSON = decoder.NewSequence(real), ref.SeqDec(refs...), J{"type": "Sequence", "decoders": js}
		return out
	}
	b := func() bool { return r.Intn(2) == 0 }
	switch r.Intn(10) {
	case 0:
		s := Pick(r, "</w>", "_", "ß", "a")
		real := decoder.NewBpeDecoder(s)
		if s == "</w>" && b() {
			real = decoder.DefaultBpeDecoder()
		}
		return Dec{"bpe " + s, real, ref.BPEDec(s), J{"type": Pick(r, "BPE", "BPEDecoder"), "suffix": s}}
	case 1, 2:
		p, c := Pick(r, "##", "##", "@", "a"), b()
		real := decoder.NewWordPieceDecoder(p, c)
		if p == "##" && c && b() {
			real = decoder.DefaultWordpieceDecoder()
		}
		return Dec{fmt.Sprintf("wordpiece %q %v", p, c), real, ref.WordPieceDec(p, c), J{"type": "WordPiece", "prefix": p, "cleanup": c}}
	case 3:
		p, t := b(), b()
		return Dec{"bytelevel", newByteLevel(r, p, t), ref.ByteLevelDec(), J{"type": "ByteLevel", "add_prefix_space": p, "trim_offsets": t}}
	case 4:
		return Dec{"bytefallback", decoder.NewByteFallback(), ref.ByteFallbackDec, J{"type": "ByteFallback"}}
	case 5:
		p, c := Pick(r, "▁", "▁", "_", "é"), b()
		rr, _ := utf8.DecodeRuneInString(p)
		j := J{"type": "Metaspace", "replacement": p, "add_prefix_space": c, "str_rep": p}
		if b() {
			j = J{"type": "Metaspace", "replacement": p, "prepend_scheme": map[bool]string{true: Pick(r, "always", "first"), false: "never"}[c], "split": true}
		}
		real := pretokenizer.NewMetaspace(p, c)
		if p == "▁" && c && b() {
			real = pretokenizer.DefaultMetaspace()
		}
		return Dec{fmt.Sprintf("metaspace %q %v", p, c), real, ref.MetaspaceDec(rr, c), j}
	case 6:
		p, d, c := Pick(r, "<pad>", "<pad>", "a", ""), Pick(r, "|", "|", "b", "▁"), b()
		if cfg && p == "" {
			p = "[PAD]"
		}
		real := decoder.NewCTC(p, d, c)
		if p == "<pad>" && d == "|" && c && b() {
			real = decoder.DefaultCTC()
		}
		j := J{"type": "CTC", "pad_token": p, Pick(r, "word_delimiter", "word_delimiter_token"): d, "cleanup": c}
		if _, ok := j["word_delimiter_token"]; ok && r.Intn(2) == 0 {
			j["word_delimiter"] = Pick(r, "", "a", "#") // the older name counts less
		}
		return Dec{fmt.Sprintf("ctc %q %q %v", p, d, c), real, ref.CTCDec(p, d, c), j}
	case 7:
		return Dec{"fuse", decoder.NewFuse(), ref.FuseDec, J{"type": "Fuse"}}
	case 8:
		s, a, z := Pick(r, " ", "▁", "a", "é"), r.Intn(4), r.Intn(4)
		return Dec{fmt.Sprintf("strip %q %d %d", s, a, z), decoder.NewStrip(s, a, z), ref.StripDec(s, a, z), J{"type": "Strip", "content": s, "start": a, "stop": z}}
	default:
		p := Pattern(r, true)
		c := Pick(r, " ", "", "▁", "xy", "é", strings.Repeat("a", 3))
		for k, v := range p.JSON {
			t := normalizer.String
			if k == "Regex" {
				t = normalizer.Regex
			}
			return Dec{fmt.Sprintf("replace %s %q", p.Name, c), normalizer.NewReplace(t, v.(string), c), ref.ReplaceDec(p.Ref, c), J{"type": "Replace", "pattern": p.JSON, "content": c}}
		}
		panic("pattern without configuration")
	}
}

// DecTokens makes a list of tokens as decoders may get them.
func DecTokens(r *rand.Rand) []string {
	var out []string
	odd := []string{"", "##", "##a", "##ing", "a##b", "a</w>", "</w>", "b</w>c</w>", "_", "ß", "▁", "▁▁", "▁the", "a▁b", "<pad>", "<pad>a", "|", "||", "a|b",
		"Ġ", "Ġthe", "Ċ", "Ã", "©", "Ã©", "ĠÃ©x", "<0x41>", "<0xE4>", "<0xB8>", "<0xad>", "<0xAD>", "<0x0A>", "<0xGG>", "<0x4 >", "<0x+1>", "<0x412>", "<0X41>", "<0x41", "0x41>", "<0xé>",
		"n't", " n't", "'m", "'s", "'ve", "'re", " 's", " 've x 're", "do not", " do not", " .", "a .", " ?", " ! ,", " ' ", "x ' y", "  .", " n't 's ' .", ".", ",", "'", " ", "  ", "aa", "aaaa", "aéa", "é", "ééé"}
	for i := r.Intn(12); i >= 0; i-- {
		switch r.Intn(8) {
		case 0, 1, 2, 3:
			out = append(out, Pick(r, odd...))
		case 4:
			out = append(out, Word(r))
		case 5:
			// a character or a broken one in byte tokens
			b := []byte(Pick(r, "é", "中", "😀", "a", "\x80", "\xff", "中\xe4"))
			if r.Intn(3) == 0 {
				b = b[:1+r.Intn(len(b))]
			}
			for _, x := range b {
				out = append(out, fmt.Sprintf(Pick(r, "<0x%02X>", "<0x%02x>"), x))
			}
		case 6:
			if len(out) > 0 {
				out = append(out, out[len(out)-1])
			}
		default:
			var b strings.Builder
			for j := r.Intn(6); j >= 0; j-- {
				b.WriteString(Pick(r, Pick(r, odd...), Word(r)))
			}
			out = append(out, b.String())
		}
	}
	return out
}
