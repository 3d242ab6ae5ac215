package props

import (
	"math/rand"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
)

type (
	tok      = tokenizer.Token
	nstr     = normalizer.NormalizedString
	splitIdx = tokenizer.SplitIdx
	preTok   = tokenizer.PreTokenizedString
	offType  = tokenizer.OffsetType
)

const (
	otByte = tokenizer.Byte
	otChar = tokenizer.Char
)

func newPT(r *rand.Rand, s string) *preTok {
	if r.Intn(2) == 0 {
		return tokenizer.NewPreTokenizedString(s)
	}
	return tokenizer.NewPreTokenizedStringFromNS(normalizer.NewNormalizedFrom(s))
}
