package offers

import (
	"github.com/carlakc/boltnd/verifvc"
)

// contract_decodeStrAgain: an offer decoded from a string stays as it was
// while others are decoded, and is the same when decoded again.
//@ bounded C05 C06 DecodeOfferStr n=500
func contract_decodeStrAgain(str, other string) {
	o, err := DecodeOfferStr(str)
	kept := verifvc.Clone(o)
	_, _ = DecodeOfferStr(other)
	verifvc.Ensures("offer as decoded", verifvc.Eq(o, kept))
	again, aerr := DecodeOfferStr(str)
	verifvc.Ensures("the same when decoded again", (err == nil) == (aerr == nil) && verifvc.Eq(again, kept))
}

func gen_contract_decodeStrAgain(r *verifvc.Rand) []interface{} {
	return []interface{}{genOffer(r), genOffer(r)}
}
