package offers

import (
	"bytes"
	"strings"
	"unicode"

	"github.com/btcsuite/btcd/btcutil/bech32"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/verifvc"
	"github.com/lightningnetwork/lnd/tlv"
)

// contract_checkASCII: printable characters only.
//@ contract C05 C13 checkASCII
func contract_checkASCII(s string) {
	err := checkASCII(s)
	verifvc.Ensures("rejected exactly with another character",
		(err != nil) == verifvc.Exists(0, len(s), func(i int) bool { return s[i] < 33 || s[i] > 126 }))
}

// contract_toBytes: the index of each character.
//@ contract C05 C13 toBytes
func contract_toBytes(s string) {
	b, err := toBytes(s)
	verifvc.Ensures("rejected exactly with another character",
		(err != nil) == verifvc.Exists(0, len(s), func(i int) bool { return strings.IndexByte("qpzry9x8gf2tvdw0s3jn54khce6mua7l", s[i]) < 0 }))
	if err != nil {
		return
	}
	verifvc.Ensures("as many", len(b) == len(s))
	verifvc.Ensures("each its index", verifvc.Forall(0, len(s), func(i int) bool {
		return int(b[i]) == strings.IndexByte("qpzry9x8gf2tvdw0s3jn54khce6mua7l", s[i])
	}))
}

func gen_contract_toBytes(r *verifvc.Rand) []interface{} {
	b := make([]byte, r.Intn(30))
	for i := range b {
		b[i] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"[r.Intn(32)]
		if r.Coin(60) {
			b[i] = byte(r.Intn(256))
		}
	}
	return []interface{}{string(b)}
}

// contract_stripOffer: the parts around "+", none of them empty or unprintable.
//@ contract C05 C13 stripOffer checkASCII
func contract_stripOffer(s string) {
	parts := strings.Split(s, "+")
	bad := verifvc.Exists(0, len(parts), func(i int) bool {
		p := strings.TrimSpace(parts[i])
		return p == "" || verifvc.Exists(0, len(p), func(j int) bool { return p[j] < 33 || p[j] > 126 })
	})
	out, err := stripOffer(s)
	verifvc.Ensures("rejected exactly with a bad part", (err != nil) == bad)
	if err != nil {
		verifvc.Ensures("nothing if rejected", out == "")
		return
	}
	want := make([]string, 0)
	for _, p := range parts {
		want = append(want, strings.TrimSpace(p))
	}
	verifvc.Ensures("the parts joined", out == strings.Join(want, ""))
}

func gen_contract_stripOffer(r *verifvc.Rand) []interface{} { return []interface{}{genOffer(r)} }

// contract_decodeBech32: what is before the last "1", and the indices of what
// is after it.
//@ contract C05 C13 decodeBech32
//@ uses sumASCII sumToBytes
func contract_decodeBech32(s string) {
	hrp, data, err := decodeBech32(s)
	lower := strings.ToLower(s)
	one := strings.LastIndexByte(lower, '1')
	ok := len(s) >= 8
	ok = ok && checkASCII(s) == nil
	ok = ok && (s == lower || s == strings.ToUpper(s))
	ok = ok && one >= 1 && len(lower)-one-1 >= 6
	if !ok {
		verifvc.Ensures("malformed", err != nil)
		return
	}
	want, werr := toBytes(lower[one+1:])
	if werr != nil {
		verifvc.Ensures("not in the character set", err != nil)
		return
	}
	verifvc.Ensures("accepted", err == nil)
	verifvc.Ensures("what is before the separator", hrp == lower[:one])
	verifvc.Ensures("the index of each character after it", bytes.Equal(data, want))
}

// sumASCII stands for the check of characters; see contract_checkASCII.
//@ summary github.com/carlakc/boltnd/offers.checkASCII
func sumASCII(s string) error { return verifvc.Fails("ascii", s) }

// sumToBytes stands for the characters' indices; see contract_toBytes.
//@ summary github.com/carlakc/boltnd/offers.toBytes
func sumToBytes(s string) ([]byte, error) {
	if err := verifvc.Fails("indices", s); err != nil {
		return nil, err
	}
	var out []byte
	verifvc.Fn(&out, "indices", s)
	return out, nil
}

func gen_contract_decodeBech32(r *verifvc.Rand) []interface{} {
	return []interface{}{strings.ReplaceAll(genOffer(r), "+", "")}
}

func bech(hrp string, data []byte) string {
	var s strings.Builder
	s.WriteString(hrp + "1")
	acc, n := uint(0), uint(0)
	for _, b := range data {
		acc = acc<<8 | uint(b)
		n += 8
		for n >= 5 {
			n -= 5
			s.WriteByte("qpzry9x8gf2tvdw0s3jn54khce6mua7l"[acc>>n&31])
		}
		acc &= 1<<n - 1
	}
	if n > 0 {
		s.WriteByte("qpzry9x8gf2tvdw0s3jn54khce6mua7l"[acc<<(5-n)&31])
	}
	return s.String()
}

// genOfferBytes makes the encoding of an offer, one that can be valid most of
// the time.
func genOfferBytes(r *verifvc.Rand) []byte {
	var b []byte
	min := func(n uint64) []byte {
		var o []byte
		for ; n > 0; n >>= 8 {
			o = append([]byte{byte(n)}, o...)
		}
		return o
	}
	rec := func(one int, typ uint64, v []byte) {
		if r.Coin(one) {
			b = append(b, verifvc.TLV(typ, v)...)
		}
	}
	rec(8, 2, r.Bytes(33)[:0])
	rec(3, 8, min(r.U64()))
	if !r.Coin(10) {
		d := []byte("description")
		if r.Coin(10) {
			d = nil
		}
		rec(1, 10, d)
	}
	rec(6, 12, r.Bytes(4))
	rec(3, 14, min(r.U64()))
	rec(3, 20, []byte("issuer"))
	rec(4, 22, min(r.U64()))
	rec(4, 24, min(r.U64()))
	if !r.Coin(10) {
		rec(1, 30, r.Key().SerializeCompressed()[1:])
	}
	rec(12, 240, r.Bytes(64))
	rec(12, 1001, r.Bytes(10))
	if r.Coin(15) {
		b = r.Bytes(60)
	}
	return b
}

// genOffer makes strings close to those of offers.
func genOffer(r *verifvc.Rand) string {
	hrp := "lno"
	switch {
	case r.Coin(12):
		hrp = []string{"lnr", "lni", "ln", "", "lno1lno", "1", "lnoo", "Lno", "l"}[r.Intn(9)]
	}
	s := bech(hrp, genOfferBytes(r))
	if r.Coin(4) {
		s = strings.ToUpper(s)
	}
	b := []byte(s)
	if r.Coin(6) && len(b) > 0 {
		i := r.Intn(len(b))
		switch r.Intn(8) {
		case 7:
			b[i] = byte(33 + r.Intn(94))
		case 0:
			b[i] = byte(r.Intn(256))
		case 1:
			b[i] ^= 32
		case 2:
			b[i] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"[r.Intn(32)]
		case 3:
			b = b[:i]
		case 4:
			b = append(b, "qpzry9x8gf2tvdw0s3jn54khce6mua7l"[r.Intn(32)])
		case 5:
			b = b[i:]
		case 6:
			b[i] = "1bio"[r.Intn(4)]
		}
	}
	spaces := []string{"", "", " ", "\n", "\r\n  ", "\t", "\v\f", "\u00a0", "\u2003", "\u0085", "\u200b", "\x00", "\x7f", "\x80"}
	sp := func() string {
		n := len(spaces)
		if !r.Coin(6) {
			n = 7
		}
		return spaces[r.Intn(n)]
	}
	var out []byte
	plus := 0
	switch {
	case r.Coin(3):
		plus = 10
	case r.Coin(3):
		plus = 2
	}
	for i, c := range b {
		if plus > 0 && i > 0 && r.Coin(plus) {
			out = append(out, sp()+"+"+sp()...)
		}
		out = append(out, c)
	}
	s = string(out)
	switch {
	case r.Coin(15):
		s = sp() + s + sp()
	case r.Coin(40):
		s = "+" + s
	case r.Coin(40):
		s += sp() + "+" + sp()
	case r.Coin(60):
		s = sp()
	case r.Coin(60):
		s = r.Make("", 1).(string)
	case r.Coin(60):
		s = strings.Replace(s, "+", "+"+sp()+"+", 1)
	case r.Coin(60) && len(s) > 5:
		i := r.Intn(len(s))
		s = s[:i] + " " + s[i:]
	}
	return s
}

// specOfferData is the data of an offer string.
func specOfferData(s string) ([]byte, bool) {
	var clean []byte
	part := []rune{}
	flush := func() bool {
		i, j := 0, len(part)
		for i < j && unicode.IsSpace(part[i]) {
			i++
		}
		for j > i && unicode.IsSpace(part[j-1]) {
			j--
		}
		if i == j {
			return false
		}
		for _, c := range part[i:j] {
			if c < 33 || c > 126 {
				return false
			}
			clean = append(clean, byte(c))
		}
		part = part[:0]
		return true
	}
	for _, c := range s {
		if c == '+' {
			if !flush() {
				return nil, false
			}
			continue
		}
		part = append(part, c)
	}
	if !flush() {
		return nil, false
	}
	up, low, one := false, false, -1
	for i, c := range clean {
		up = up || 'A' <= c && c <= 'Z'
		low = low || 'a' <= c && c <= 'z'
		if c == '1' {
			one = i
		}
	}
	if up && low || one != 3 || len(clean)-4 < 6 {
		return nil, false
	}
	if !strings.EqualFold(string(clean[:3]), "lno") {
		return nil, false
	}
	var bits []byte
	for _, c := range clean[4:] {
		if 'A' <= c && c <= 'Z' {
			c += 32
		}
		v := strings.IndexByte("qpzry9x8gf2tvdw0s3jn54khce6mua7l", c)
		if v < 0 {
			return nil, false
		}
		for k := 4; k >= 0; k-- {
			bits = append(bits, byte(v>>uint(k))&1)
		}
	}
	var out []byte
	for len(bits) >= 8 {
		b := byte(0)
		for _, x := range bits[:8] {
			b = b<<1 | x
		}
		out = append(out, b)
		bits = bits[8:]
	}
	if len(bits) > 4 {
		return nil, false
	}
	for _, x := range bits {
		if x != 0 {
			return nil, false
		}
	}
	return out, true
}

// contract_offerString: an offer string is the offer its characters encode,
// however it is split.
//@ bounded C05 C06 C13 DecodeOfferStr stripOffer decodeBech32 checkASCII toBytes n=20000
func contract_offerString(s string) {
	offer, err := DecodeOfferStr(s)
	verifvc.Ensures("an offer or an error", (offer == nil) == (err != nil))
	data, ok := specOfferData(s)
	if !ok {
		verifvc.Ensures("malformed string rejected", err != nil)
		return
	}
	want, derr := lnwire.DecodeOffer(data)
	if derr != nil {
		verifvc.Ensures("undecodable offer rejected", err != nil)
		return
	}
	if want.Validate() != nil {
		verifvc.Ensures("invalid offer rejected", err != nil)
		return
	}
	verifvc.Ensures("valid offer returned", err == nil)
	verifvc.Ensures("the offer encoded", verifvc.Eq(offer, want))
}

func gen_contract_offerString(r *verifvc.Rand) []interface{} { return []interface{}{genOffer(r)} }

// contract_bits: the data characters regrouped into bytes.
//@ bounded C05 bech32.ConvertBits decodeBech32 n=5000
func contract_bits(data []byte) {
	clean, err := stripOffer(bech("lno", data))
	verifvc.Ensures("clean", err == nil && clean == bech("lno", data))
	if len(clean) < 10 {
		_, _, err := decodeBech32(clean)
		verifvc.Ensures("too short", err != nil)
		return
	}
	hrp, got, err := decodeBech32(clean)
	verifvc.Ensures("decodes", err == nil && hrp == "lno")
	out, err := bech32.ConvertBits(got, 5, 8, false)
	verifvc.Ensures("the data", err == nil && bytes.Equal(out, data))
}

// sumStrip stands for the joining of a string's parts; see
// contract_stripOffer.
//@ summary github.com/carlakc/boltnd/offers.stripOffer
func sumStrip(s string) (string, error) {
	if err := verifvc.Fails("strip", s); err != nil {
		return "", err
	}
	var out string
	verifvc.Fn(&out, "strip", s)
	return out, nil
}

// sumBech32 stands for the split into prefix and data; see
// contract_decodeBech32.
//@ summary github.com/carlakc/boltnd/offers.decodeBech32
func sumBech32(s string) (string, []byte, error) {
	if err := verifvc.Fails("bech32", s); err != nil {
		return "", nil, err
	}
	var hrp string
	var data []byte
	verifvc.Fn(&hrp, "prefix", s)
	verifvc.Fn(&data, "data", s)
	return hrp, data, nil
}

// sumConvert stands for btcutil's regrouping of bits.
//@ summary github.com/btcsuite/btcd/btcutil/bech32.ConvertBits
func sumConvert(data []byte, from, to uint8, pad bool) ([]byte, error) {
	if err := verifvc.Fails("convert", data, from, to, pad); err != nil {
		return nil, err
	}
	var out []byte
	verifvc.Fn(&out, "convert", data, from, to, pad)
	return out, nil
}

// sumDecode stands for the decoding of an offer; see C07.
//@ summary github.com/carlakc/boltnd/lnwire.DecodeOffer
func sumDecode(b []byte) (*lnwire.Offer, error) {
	if err := verifvc.Fails("decode", b); err != nil {
		return nil, err
	}
	o := new(lnwire.Offer)
	verifvc.Fn(o, "decode", b)
	return o, nil
}

// sumValidate stands for the validation of an offer; see C03.
//@ summary (*github.com/carlakc/boltnd/lnwire.Offer).Validate
func sumValidate(o *lnwire.Offer) error { return verifvc.Fails("validate", *o) }

// contract_decodeOfferStr: an offer is returned exactly if every step
// succeeds.
//@ contract C06 DecodeOfferStr
//@ uses sumStrip sumBech32 sumConvert sumDecode sumValidate
func contract_decodeOfferStr(s string) {
	offer, err := DecodeOfferStr(s)
	clean, serr := stripOffer(s)
	if serr != nil {
		verifvc.Ensures("not to be joined", offer == nil && err != nil)
		return
	}
	hrp, data, berr := decodeBech32(clean)
	if berr != nil {
		verifvc.Ensures("malformed", offer == nil && err != nil)
		return
	}
	if hrp != "lno" {
		verifvc.Ensures("another prefix", offer == nil && err != nil)
		return
	}
	raw, cerr := bech32.ConvertBits(data, 5, 8, false)
	if cerr != nil {
		verifvc.Ensures("bad padding", offer == nil && err != nil)
		return
	}
	want, derr := lnwire.DecodeOffer(raw)
	if derr != nil {
		verifvc.Ensures("undecodable", offer == nil && err != nil)
		return
	}
	if want.Validate() != nil {
		verifvc.Ensures("invalid", offer == nil && err != nil)
		return
	}
	verifvc.Ensures("valid", err == nil && offer != nil)
	verifvc.Ensures("the offer decoded", verifvc.Eq(offer, want))
}

func gen_contract_decodeOfferStr(r *verifvc.Rand) []interface{} { return []interface{}{genOffer(r)} }

var _ tlv.Type
