package lnwire

import (
	"bytes"
	"encoding/binary"
	"io"
	"sort"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/verifvc"
	"github.com/lightningnetwork/lnd/tlv"
)

// specReply is the encoding of a reply path.
func specReply(p *ReplyPath) ([]byte, bool) {
	if p.FirstNodeID == nil || p.BlindingPoint == nil || len(p.Hops) == 0 || len(p.Hops) > 255 {
		return nil, false
	}
	b := append([]byte{}, p.FirstNodeID.SerializeCompressed()...)
	b = append(b, p.BlindingPoint.SerializeCompressed()...)
	b = append(b, byte(len(p.Hops)))
	for _, h := range p.Hops {
		if len(h.EncryptedData) > 65535 {
			return nil, false
		}
		b = append(b, h.BlindedNodeID.SerializeCompressed()...)
		b = append(b, byte(len(h.EncryptedData)>>8), byte(len(h.EncryptedData)))
		b = append(b, h.EncryptedData...)
	}
	return b, true
}

// parseReply is the reply path an encoding is of.
func parseReply(b []byte) (*ReplyPath, bool) {
	ok := true
	take := func(n int) []byte {
		if n > len(b) {
			ok = false
			return make([]byte, n)
		}
		v := b[:n:n]
		b = b[n:]
		return v
	}
	key := func() *btcec.PublicKey {
		k, err := btcec.ParsePubKey(take(33))
		ok = ok && err == nil
		return k
	}
	p := &ReplyPath{FirstNodeID: key(), BlindingPoint: key()}
	n := int(take(1)[0])
	ok = ok && n > 0
	for i := 0; i < n && ok; i++ {
		h := &BlindedHop{BlindedNodeID: key()}
		l := take(2)
		h.EncryptedData = take(int(binary.BigEndian.Uint16(l)))
		p.Hops = append(p.Hops, h)
	}
	return p, ok && len(b) == 0
}

func specNoNil(p *ReplyPath) bool {
	return p.FirstNodeID != nil && p.BlindingPoint != nil && verifvc.Forall(0, len(p.Hops), func(i int) bool {
		return p.Hops[i] != nil && p.Hops[i].BlindedNodeID != nil
	})
}

// contract_encodeReply: keys, hop count and hops, of the declared size, or an
// error.
//@ contract C10 encodeReplyPath encodeBlindedHop (*ReplyPath).size (*BlindedHop).size
func contract_encodeReply(p *ReplyPath) {
	verifvc.Requires(p != nil && specNoNil(p))
	want, ok := specReply(p)
	var w bytes.Buffer
	var buf [8]byte
	err := encodeReplyPath(&w, p, &buf)
	verifvc.Ensures("encodes exactly if it can", (err == nil) == ok)
	if ok {
		verifvc.Ensures("the encoding", bytes.Equal(w.Bytes(), want))
		verifvc.Ensures("the size declared", p.size() == uint64(len(want)))
	}
}

func genReplyPath(r *verifvc.Rand, big bool) *ReplyPath {
	p := &ReplyPath{FirstNodeID: r.Key(), BlindingPoint: r.Key()}
	n := r.Intn(6)
	if r.Coin(30) {
		n = 254 + r.Intn(4)
	}
	for i := 0; i < n; i++ {
		h := &BlindedHop{BlindedNodeID: r.Key(), EncryptedData: r.Data(40)}
		if big && r.Coin(40) {
			h.EncryptedData = make([]byte, []int{255, 256, 65534, 65535, 65536, 65537}[r.Intn(6)])
		}
		p.Hops = append(p.Hops, h)
	}
	return p
}

func gen_contract_encodeReply(r *verifvc.Rand) []interface{} {
	return []interface{}{genReplyPath(r, true)}
}

// contract_decodeReply: exactly the encodings, within the declared length.
//@ contract C10 C13 decodeReplyPath decodeBlindedHop n=3000
func contract_decodeReply(b, after []byte) {
	p := &ReplyPath{}
	var buf [8]byte
	r := bytes.NewReader(append(append([]byte{}, b...), after...))
	err := decodeReplyPath(r, p, &buf, uint64(len(b)))
	want, ok := parseReply(b)
	verifvc.Ensures("decodes exactly the encodings", (err == nil) == ok)
	verifvc.Ensures("nothing read beyond its length", r.Len() >= len(after))
	if ok {
		verifvc.Ensures("everything read", r.Len() == len(after))
		verifvc.Ensures("the path encoded", verifvc.Eq(p, want))
	}
}

// decodesReply: decodes exactly the encodings within the length declared.
func decodesReply(b, after []byte) {
	p := &ReplyPath{}
	var buf [8]byte
	r := bytes.NewReader(append(append([]byte{}, b...), after...))
	err := decodeReplyPath(r, p, &buf, uint64(len(b)))
	want, ok := parseReply(b)
	verifvc.Ensures("decodes exactly the encodings", (err == nil) == ok)
	verifvc.Ensures("nothing read beyond its length", r.Len() >= len(after))
	if ok {
		verifvc.Ensures("everything read", r.Len() == len(after))
		verifvc.Ensures("the path encoded", verifvc.Eq(p, want))
	}
}

// contract_decodeOneHop: a reply path of at most a hop.
//@ deductive C10 C13 decodeReplyPath decodeBlindedHop
func contract_decodeOneHop(first, blinding [33]byte, none bool, rest, after []byte) {
	n := byte(1)
	if none {
		n = 0
	}
	decodesReply(append(append(append(append([]byte{}, first[:]...), blinding[:]...), n), rest...), after)
}

// contract_decodeShort: less than the keys and a hop count.
//@ deductive C10 C13 decodeReplyPath
func contract_decodeShort(b, after []byte) {
	verifvc.Requires(len(b) < 67)
	decodesReply(b, after)
}

// contract_decodeSecondHop: whatever comes after a first hop.
//@ deductive C10 C13 decodeReplyPath decodeBlindedHop
func contract_decodeSecondHop(first, blinding, hop [33]byte, data, rest, after []byte) {
	verifvc.Requires(len(data) <= 65535)
	b := append(append(append(append([]byte{}, first[:]...), blinding[:]...), 2), hop[:]...)
	b = append(append(b, byte(len(data)>>8), byte(len(data))), data...)
	decodesReply(append(b, rest...), after)
}

func gen_contract_decodeReply(r *verifvc.Rand) []interface{} {
	b, ok := specReply(genReplyPath(r, r.Coin(10)))
	if !ok {
		b = r.Bytes(200)
	}
	after := r.Bytes(50)
	if r.Coin(4) {
		// Something the last hop might take.
		after = r.Key().SerializeCompressed()
	}
	b = mutate(r, b)
	if r.Coin(6) && len(b) > 66 {
		b[66] = byte(int(b[66]) + r.Intn(3) - 1)
	}
	return []interface{}{b, after}
}

// contract_encodePayload: the reply path, the data if there is any, and the
// final payloads in ascending order.
//@ contract C09 C10 EncodeOnionMessagePayload (*FinalHopPayload).Validate ValidateFinalPayload (*ReplyPath).record
func contract_encodePayload(p *OnionMessagePayload) {
	verifvc.Requires(p != nil && (p.ReplyPath == nil || specNoNil(p.ReplyPath)))
	verifvc.Requires(verifvc.Forall(0, len(p.FinalHopPayloads), func(i int) bool { return p.FinalHopPayloads[i] != nil }))
	ok := true
	var recs []rawRec
	if p.ReplyPath != nil {
		b, fits := specReply(p.ReplyPath)
		ok = ok && fits
		recs = append(recs, rawRec{2, b})
	}
	if len(p.EncryptedData) > 0 {
		recs = append(recs, rawRec{4, p.EncryptedData})
	}
	finals := append([]*FinalHopPayload{}, p.FinalHopPayloads...)
	sort.SliceStable(finals, func(i, j int) bool { return finals[i].TLVType < finals[j].TLVType })
	low := false
	for i, f := range finals {
		low = low || f.TLVType < 64
		ok = ok && (i == 0 || finals[i-1].TLVType != f.TLVType)
		recs = append(recs, rawRec{uint64(f.TLVType), f.Value})
	}
	b, err := EncodeOnionMessagePayload(p)
	if low {
		verifvc.Ensures("type out of range", verifvc.Is(err, ErrNotFinalPayload) && b == nil)
		return
	}
	verifvc.Ensures("encodes exactly if it can", (err == nil) == ok)
	if !ok {
		return
	}
	var want []byte
	for _, x := range recs {
		want = append(want, x.bytes()...)
	}
	verifvc.Ensures("the records in ascending order", bytes.Equal(b, want))
	for _, x := range recs {
		if len(x.val) > 65535 {
			return
		}
	}
	got, err := DecodeOnionMessagePayload(b)
	verifvc.Ensures("decodes", err == nil)
	verifvc.Ensures("the reply path given back", verifvc.Eq(got.ReplyPath, p.ReplyPath))
	verifvc.Ensures("the data given back", bytes.Equal(got.EncryptedData, p.EncryptedData))
	verifvc.Ensures("the payloads given back, in ascending order", verifvc.Eq(got.FinalHopPayloads, finals))
}

// sumSortRecords is tlv.SortRecords: records in ascending order, as a stable
// sort leaves them.
//@ summary github.com/lightningnetwork/lnd/tlv.SortRecords
func sumSortRecords(records []tlv.Record) {
	for i := 1; i < len(records); i++ {
		for j := i; j > 0 && records[j].Type() < records[j-1].Type(); j-- {
			records[j], records[j-1] = records[j-1], records[j]
		}
	}
}

// contract_encodeThree: the records of three final payloads in ascending
// order, after those of the reply path and the data.
//@ deductive C09 C10 EncodeOnionMessagePayload (*FinalHopPayload).Validate ValidateFinalPayload (*ReplyPath).record
//@ uses sumSortRecords
func contract_encodeThree(data []byte, a, b, c *FinalHopPayload) {
	verifvc.Requires(a != nil && b != nil && c != nil)
	enc, err := EncodeOnionMessagePayload(&OnionMessagePayload{
		EncryptedData: data, FinalHopPayloads: []*FinalHopPayload{a, b, c},
	})
	if a.TLVType < 64 || b.TLVType < 64 || c.TLVType < 64 {
		verifvc.Ensures("type out of range", verifvc.Is(err, ErrNotFinalPayload) && enc == nil)
		return
	}
	if a.TLVType > b.TLVType {
		a, b = b, a
	}
	if b.TLVType > c.TLVType {
		b, c = c, b
	}
	if a.TLVType > b.TLVType {
		a, b = b, a
	}
	ok := a.TLVType != b.TLVType && b.TLVType != c.TLVType
	var want []byte
	if len(data) > 0 {
		want = append(want, verifvc.TLV(4, data)...)
	}
	verifvc.Ensures("encodes exactly if it can", (err == nil) == ok)
	if !ok {
		return
	}
	want = append(want, verifvc.TLV(uint64(a.TLVType), a.Value)...)
	want = append(want, verifvc.TLV(uint64(b.TLVType), b.Value)...)
	want = append(want, verifvc.TLV(uint64(c.TLVType), c.Value)...)
	verifvc.Ensures("the records in ascending order", bytes.Equal(enc, want))
}

// replyBytes is the encoding of a reply path.
func replyBytes(*ReplyPath) []byte {
	var b []byte
	verifvc.Fn(&b, "reply path")
	return b
}

// sumEncodeReply is encodeReplyPath, which encodeReply's contract is about.
//@ summary github.com/carlakc/boltnd/lnwire.encodeReplyPath
func sumEncodeReply(w io.Writer, val interface{}, _ *[8]byte) error {
	if err := verifvc.Fails("encode reply path"); err != nil {
		return err
	}
	_, err := w.Write(replyBytes(val.(*ReplyPath)))
	return err
}

// sumReplySize is the size of the encoding.
//@ summary (*github.com/carlakc/boltnd/lnwire.ReplyPath).size
func sumReplySize(p *ReplyPath) uint64 { return uint64(len(replyBytes(p))) }

// contract_encodeAll: the reply path, the data and a final payload.
//@ deductive C09 C10 EncodeOnionMessagePayload (*ReplyPath).record
//@ uses sumSortRecords sumEncodeReply sumReplySize
func contract_encodeAll(reply *ReplyPath, data []byte, f *FinalHopPayload) {
	verifvc.Requires(reply != nil && f != nil && f.TLVType >= 64)
	enc, err := EncodeOnionMessagePayload(&OnionMessagePayload{
		ReplyPath: reply, EncryptedData: data, FinalHopPayloads: []*FinalHopPayload{f},
	})
	verifvc.Ensures("encodes exactly if it can", (err == nil) == (verifvc.Fails("encode reply path") == nil))
	if err != nil {
		return
	}
	want := append([]byte{}, verifvc.TLV(2, replyBytes(reply))...)
	if len(data) > 0 {
		want = append(want, verifvc.TLV(4, data)...)
	}
	want = append(want, verifvc.TLV(uint64(f.TLVType), f.Value)...)
	verifvc.Ensures("the records in ascending order", bytes.Equal(enc, want))
}

func gen_contract_encodePayload(r *verifvc.Rand) []interface{} { return []interface{}{genPayload(r)} }

func genPayload(r *verifvc.Rand) *OnionMessagePayload {
	p := &OnionMessagePayload{}
	if r.Bool() {
		p.ReplyPath = genReplyPath(r, false)
	}
	if r.Bool() {
		p.EncryptedData = r.Data(60)
	}
	n := r.Intn(6)
	if r.Coin(8) {
		n = r.Count(6)
	}
	if n > 6 {
		// Many, all different, in no order.
		for _, at := range r.Perm(n) {
			p.FinalHopPayloads = append(p.FinalHopPayloads, &FinalHopPayload{TLVType: tlvT(64 + at*(1+n%3)), Value: r.Bytes(5)})
		}
		return p
	}
	for i := n; i > 0; i-- {
		f := &FinalHopPayload{Value: r.Data(40)}
		switch r.Intn(7) {
		case 0:
			f.TLVType = 64
		case 1:
			f.TLVType = 66
		case 2:
			f.TLVType = tlvT(64 + r.Intn(5))
		case 3:
			f.TLVType = tlvT(64 + r.U64()%1000)
		default:
			if f.TLVType = tlvT(r.U64()); f.TLVType < 64 {
				f.TLVType += 64
			}
		}
		if r.Coin(50) {
			f.TLVType = tlvT(r.Intn(64))
		}
		if r.Coin(5) {
			f.Value = []byte{}
		}
		p.FinalHopPayloads = append(p.FinalHopPayloads, f)
	}
	return p
}

// contract_decodePayload: the reply path, the data and every record from 64,
// in ascending order.
//@ contract C09 C10 C13 DecodeOnionMessagePayload decodeReplyPath n=4000
func contract_decodePayload(b []byte) {
	got, err := DecodeOnionMessagePayload(b)
	verifvc.Ensures("a value or an error", (got == nil) == (err != nil))
	recs, ok := parseTLV(b)
	want := &OnionMessagePayload{}
	if ok {
		for _, x := range recs {
			switch {
			case x.typ == 2:
				want.ReplyPath, ok = parseReply(x.val)
				if !ok {
					verifvc.Ensures("bad reply path rejected", err != nil)
					return
				}
			case x.typ == 4:
				want.EncryptedData = x.val
			case x.typ >= 64:
				want.FinalHopPayloads = append(want.FinalHopPayloads, &FinalHopPayload{TLVType: tlvT(x.typ), Value: x.val})
			}
		}
	}
	verifvc.Ensures("decodes exactly if well formed", (err == nil) == ok)
	if ok {
		verifvc.Ensures("reply path", verifvc.Eq(got.ReplyPath, want.ReplyPath))
		verifvc.Ensures("data", bytes.Equal(got.EncryptedData, want.EncryptedData))
		verifvc.Ensures("every record from 64, in ascending order", verifvc.Eq(got.FinalHopPayloads, want.FinalHopPayloads))
	}
}

func gen_contract_decodePayload(r *verifvc.Rand) []interface{} {
	p := genPayload(r)
	var recs []rawRec
	if p.ReplyPath != nil {
		if b, ok := specReply(p.ReplyPath); ok {
			recs = insert(recs, rawRec{2, b})
		}
	}
	if p.EncryptedData != nil {
		recs = insert(recs, rawRec{4, p.EncryptedData})
	}
	for _, f := range p.FinalHopPayloads {
		recs = insert(recs, rawRec{uint64(f.TLVType), f.Value})
	}
	var b []byte
	for _, x := range recs {
		b = append(b, x.bytes()...)
	}
	return []interface{}{genStream(r, b)}
}

// contract_finalPayload: types from 64.
//@ contract C09 C23 ValidateFinalPayload (*FinalHopPayload).Validate
func contract_finalPayload(typ uint64, val []byte) {
	err := ValidateFinalPayload(tlvT(typ))
	verifvc.Ensures("types from 64", (err == nil) == (typ >= 64) && (err == nil || verifvc.Is(err, ErrNotFinalPayload)))
	err = (&FinalHopPayload{TLVType: tlvT(typ), Value: val}).Validate()
	verifvc.Ensures("payloads of types from 64", (err == nil) == (typ >= 64) && (err == nil || verifvc.Is(err, ErrNotFinalPayload)))
}

// contract_onionMessage: key, length, blob.
//@ contract C11 C13 (*OnionMessage).Encode (*OnionMessage).Decode NewOnionMessage (*OnionMessage).MsgType n=1000
func contract_onionMessage(key *btcec.PublicKey, blob []byte, long bool) {
	verifvc.Requires(key != nil)
	if long {
		blob = make([]byte, 65530+len(blob))
	}
	m := NewOnionMessage(key, blob)
	verifvc.Ensures("type 513", m.MsgType() == 513)
	var w bytes.Buffer
	err := m.Encode(&w, 0)
	verifvc.Ensures("encodes exactly if the length fits", (err == nil) == (len(blob) <= 65535))
	if err != nil {
		return
	}
	want := append(append([]byte{}, key.SerializeCompressed()...), byte(len(blob)>>8), byte(len(blob)))
	want = append(want, blob...)
	verifvc.Ensures("key, length, blob", bytes.Equal(w.Bytes(), want))
	got := &OnionMessage{}
	err = got.Decode(bytes.NewReader(want), 0)
	verifvc.Ensures("given back", err == nil && verifvc.Eq(got.BlindingPoint, key) && bytes.Equal(got.OnionBlob, blob))
}

func gen_contract_onionMessage(r *verifvc.Rand) []interface{} {
	return []interface{}{r.Key(), r.Data(300), r.Coin(6)}
}

// contract_decodeOnionMessage: exactly what starts with the encoding of one.
//@ contract C11 C13 (*OnionMessage).Decode
func contract_decodeOnionMessage(b []byte) {
	m := &OnionMessage{}
	err := m.Decode(bytes.NewReader(b), 0)
	ok := len(b) >= 35
	var key *btcec.PublicKey
	if ok {
		k, kerr := btcec.ParsePubKey(b[:33])
		key = k
		ok = kerr == nil && len(b) >= 35+(int(b[33])<<8|int(b[34]))
	}
	verifvc.Ensures("decodes exactly if complete", (err == nil) == ok)
	if ok {
		verifvc.Ensures("the key", verifvc.Eq(m.BlindingPoint, key))
		verifvc.Ensures("the blob", bytes.Equal(m.OnionBlob, b[35:35+(int(b[33])<<8|int(b[34]))]))
	}
}

func gen_contract_decodeOnionMessage(r *verifvc.Rand) []interface{} {
	blob := r.Data(300)
	b := append(append([]byte{}, r.Key().SerializeCompressed()...), byte(len(blob)>>8), byte(len(blob)))
	b = append(b, blob...)
	if r.Coin(4) {
		b = b[:r.Intn(len(b)+1)]
	}
	return []interface{}{mutate(r, b)}
}

// contract_encodeRouteData: a record for each field that is set; decoding
// gives back exactly those.
//@ contract C12 EncodeBlindedRouteData DecodeBlindedRouteData
func contract_encodeRouteData(next, override *btcec.PublicKey) {
	d := &BlindedRouteData{NextNodeID: next, NextBlindingOverride: override}
	b, err := EncodeBlindedRouteData(d)
	want := verifvc.Concat(verifvc.OptTLV(next != nil, 4, pbytes(next)), verifvc.OptTLV(override != nil, 8, pbytes(override)))
	verifvc.Ensures("a record for each field", err == nil && bytes.Equal(b, want))
	got, err := DecodeBlindedRouteData(b)
	verifvc.Ensures("decodes", err == nil)
	verifvc.Ensures("the fields given back", verifvc.Eq(got.NextNodeID, next) && verifvc.Eq(got.NextBlindingOverride, override))
}

// contract_decodeRouteData: each field from its record.
//@ contract C12 C13 DecodeBlindedRouteData n=4000
func contract_decodeRouteData(b []byte) {
	got, err := DecodeBlindedRouteData(b)
	verifvc.Ensures("a value or an error", (got == nil) == (err != nil))
	f := &fields{b: b}
	next, override := f.point(4), f.point(8)
	ok := verifvc.TLVOK(b) && !f.bad
	verifvc.Ensures("decodes exactly if well formed", (err == nil) == ok)
	if ok {
		verifvc.Ensures("next node", verifvc.Eq(got.NextNodeID, next))
		verifvc.Ensures("override", verifvc.Eq(got.NextBlindingOverride, override))
	}
}

func gen_contract_decodeRouteData(r *verifvc.Rand) []interface{} {
	w := &builder{}
	w.put(!r.Coin(4), 4, r.Key().SerializeCompressed())
	w.put(!r.Coin(4), 8, r.Key().SerializeCompressed())
	return []interface{}{genStream(r, w.b)}
}

var _ io.Reader
