package lnwire

import (
	"bytes"
	"encoding/binary"
	"errors"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/btcec/v2/schnorr"
	"github.com/carlakc/boltnd/verifvc"
	"github.com/lightningnetwork/lnd/lntypes"
	"github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/tlv"
)

// fields reads the fields of an object from its records.
type fields struct {
	b   []byte
	bad bool
}

func (f *fields) get(typ uint64) ([]byte, bool) { return verifvc.TLVGet(f.b, typ) }

func (f *fields) hash(typ uint64) (h lntypes.Hash) {
	v, ok := f.get(typ)
	if ok && len(v) != 32 {
		f.bad = true
	}
	copy(h[:], v)
	return h
}

// tu64 reads an integer without leading zero bytes.
func (f *fields) tu64(typ uint64) uint64 {
	v, ok := f.get(typ)
	if !ok {
		return 0
	}
	n, ok := verifvc.UnMin64(v)
	if !ok || len(v) == 0 {
		f.bad = true
		return 0
	}
	return n
}

func (f *fields) u64(typ uint64) (uint64, bool) {
	v, ok := f.get(typ)
	if !ok {
		return 0, false
	}
	if len(v) != 8 {
		f.bad = true
		return 0, true
	}
	return binary.BigEndian.Uint64(v), true
}

func (f *fields) bytes(typ uint64) []byte {
	v, _ := f.get(typ)
	return v
}

func (f *fields) xonly(typ uint64) *btcec.PublicKey {
	v, ok := f.get(typ)
	if !ok {
		return nil
	}
	k, err := schnorr.ParsePubKey(v)
	if len(v) != 32 || err != nil {
		f.bad = true
		return nil
	}
	return k
}

func (f *fields) point(typ uint64) *btcec.PublicKey {
	v, ok := f.get(typ)
	if !ok {
		return nil
	}
	k, err := btcec.ParsePubKey(v)
	if len(v) != 33 || err != nil {
		f.bad = true
		return nil
	}
	return k
}

func (f *fields) sig(typ uint64) *[64]byte {
	v, ok := f.get(typ)
	if !ok {
		return nil
	}
	if len(v) != 64 {
		f.bad = true
		return nil
	}
	var s [64]byte
	copy(s[:], v)
	return &s
}

func (f *fields) features(typ uint64) *lnwire.FeatureVector {
	raw := lnwire.NewRawFeatureVector()
	if v, ok := f.get(typ); ok {
		if raw.Decode(bytes.NewReader(v)) != nil {
			f.bad = true
		}
	}
	return lnwire.NewFeatureVector(raw, lnwire.Features)
}

// specRootOf is the root of the records of a stream.
//@ opaque
func specRootOf(b []byte) ([32]byte, bool) {
	recs, ok := parseTLV(b)
	if !ok {
		return [32]byte{}, false
	}
	return specRoot(recs)
}

// sumRoot stands for the root of a stream; see contract_decodeRoot.
//@ summary github.com/carlakc/boltnd/lnwire.decodeMerkleRoot
func sumRoot(b []byte) (lntypes.Hash, error) {
	h, ok := specRootOf(b)
	if !ok {
		return lntypes.Hash{}, errors.New("no root")
	}
	return lntypes.Hash(h), nil
}

func specOffer(b []byte) (*Offer, bool) {
	f := &fields{b: b}
	o := &Offer{
		Chainhash:     f.hash(2),
		MinimumAmount: lnwire.MilliSatoshi(f.tu64(8)),
		Description:   string(f.bytes(10)),
		Features:      f.features(12),
		Issuer:        string(f.bytes(20)),
		QuantityMin:   f.tu64(22),
		QuantityMax:   f.tu64(24),
		NodeID:        f.xonly(30),
		Signature:     f.sig(240),
	}
	if _, ok := f.get(14); ok {
		o.Expiry = time.Unix(int64(f.tu64(14)), 0)
	}
	root, ok := specRootOf(b)
	o.MerkleRoot = root
	return o, ok && !f.bad && verifvc.TLVOK(b)
}

func specRequest(b []byte) (*InvoiceRequest, bool) {
	f := &fields{b: b}
	i := &InvoiceRequest{
		Chainhash: f.hash(3),
		OfferID:   f.hash(4),
		Amount:    lnwire.MilliSatoshi(f.tu64(8)),
		Features:  f.features(12),
		Quantity:  f.tu64(32),
		PayerKey:  f.xonly(38),
		PayerNote: string(f.bytes(39)),
		PayerInfo: f.bytes(50),
		Signature: f.sig(240),
	}
	root, ok := specRootOf(b)
	i.MerkleRoot = root
	return i, ok && !f.bad && verifvc.TLVOK(b)
}

func specInvoice(b []byte) (*Invoice, bool) {
	f := &fields{b: b}
	i := &Invoice{
		Chainhash:   f.hash(3),
		OfferID:     f.hash(4),
		Amount:      lnwire.MilliSatoshi(f.tu64(8)),
		Description: string(f.bytes(10)),
		Features:    f.features(12),
		NodeID:      f.point(30),
		Quantity:    f.tu64(32),
		PayerKey:    f.point(38),
		PayerNote:   string(f.bytes(39)),
		PaymentHash: f.hash(42),
		PayerInfo:   f.bytes(50),
		Signature:   f.sig(240),
	}
	if t, ok := f.u64(40); ok {
		i.CreatedAt = time.Unix(int64(t), 0)
	}
	if t, ok := f.u64(44); ok {
		if t > (1<<63-1)/uint64(time.Second) {
			f.bad = true
		} else {
			i.RelativeExpiry = time.Duration(t) * time.Second
		}
	}
	i.CLTVExpiry, _ = f.u64(46)
	root, ok := specRootOf(b)
	i.MerkleRoot = root
	return i, ok && !f.bad && verifvc.TLVOK(b)
}

// contract_decodeOffer: each field from the record of its type.
//@ contract C07 C02 C13 DecodeOffer decodeFeaturesRecord decodeMerkleRoot decodeTU64 n=4000
//@ uses sumRoot
//@ join *
func contract_decodeOffer(b []byte) {
	o, err := DecodeOffer(b)
	verifvc.Ensures("a value or an error", (o == nil) == (err != nil))
	want, ok := specOffer(b)
	verifvc.Ensures("decodes exactly if well formed", (err == nil) == ok)
	if ok {
		verifvc.Ensures("the root of the records as sent", o.MerkleRoot == want.MerkleRoot)
		verifvc.Ensures("each field from its record", verifvc.Eq(o, want))
	}
}

// contract_decodeRequest: each field from the record of its type.
//@ contract C07 C02 C13 DecodeInvoiceRequest decodeFeaturesRecord decodeMerkleRoot decodeTU64 n=4000
//@ uses sumRoot
//@ join *
func contract_decodeRequest(b []byte) {
	o, err := DecodeInvoiceRequest(b)
	verifvc.Ensures("a value or an error", (o == nil) == (err != nil))
	want, ok := specRequest(b)
	verifvc.Ensures("decodes exactly if well formed", (err == nil) == ok)
	if ok {
		verifvc.Ensures("the root of the records as sent", o.MerkleRoot == want.MerkleRoot)
		verifvc.Ensures("each field from its record", verifvc.Eq(o, want))
	}
}

// contract_decodeInvoice: each field from the record of its type.
//@ contract C07 C02 C13 DecodeInvoice decodeFeaturesRecord decodeMerkleRoot decodeTU64 n=4000
//@ uses sumRoot
//@ join *
func contract_decodeInvoice(b []byte) {
	o, err := DecodeInvoice(b)
	verifvc.Ensures("a value or an error", (o == nil) == (err != nil))
	want, ok := specInvoice(b)
	verifvc.Ensures("decodes exactly if well formed", (err == nil) == ok)
	if ok {
		verifvc.Ensures("the root of the records as sent", o.MerkleRoot == want.MerkleRoot)
		verifvc.Ensures("each field from its record", verifvc.Eq(o, want))
	}
}

func be64(n uint64) []byte {
	b := make([]byte, 8)
	for i := range b {
		b[i] = byte(n >> uint(56-8*i))
	}
	return b
}

// builder writes records.
type builder struct{ b []byte }

func (w *builder) put(ok bool, typ uint64, v []byte) {
	if ok {
		w.b = append(w.b, verifvc.TLV(typ, v)...)
	}
}

// madeFeatures: a feature vector is made with lnwire.NewFeatureVector.
func madeFeatures(f *lnwire.FeatureVector) bool { return f == nil || f.RawFeatureVector != nil }

func featureBytes(f *lnwire.FeatureVector) []byte {
	if f == nil || f.IsEmpty() {
		return nil
	}
	var b bytes.Buffer
	if f.Encode(&b) != nil {
		panic("features")
	}
	return b.Bytes()
}

func xbytes(k *btcec.PublicKey) []byte {
	if k == nil {
		return nil
	}
	return schnorr.SerializePubKey(k)
}

func pbytes(k *btcec.PublicKey) []byte {
	if k == nil {
		return nil
	}
	return k.SerializeCompressed()
}

func sbytes(s *[64]byte) []byte {
	if s == nil {
		return nil
	}
	return s[:]
}

// offerBytes is the encoding of an offer.
func offerBytes(o *Offer) []byte {
	return verifvc.Concat(
		verifvc.OptTLV(o.Chainhash != lntypes.ZeroHash, 2, o.Chainhash[:]),
		verifvc.OptTLV(o.MinimumAmount != 0, 8, verifvc.Min64(uint64(o.MinimumAmount))),
		verifvc.OptTLV(o.Description != "", 10, []byte(o.Description)),
		verifvc.OptTLV(o.Features != nil && !o.Features.IsEmpty(), 12, featureBytes(o.Features)),
		verifvc.OptTLV(!o.Expiry.IsZero(), 14, verifvc.Min64(uint64(o.Expiry.Unix()))),
		verifvc.OptTLV(o.Issuer != "", 20, []byte(o.Issuer)),
		verifvc.OptTLV(o.QuantityMin != 0, 22, verifvc.Min64(o.QuantityMin)),
		verifvc.OptTLV(o.QuantityMax != 0, 24, verifvc.Min64(o.QuantityMax)),
		verifvc.OptTLV(o.NodeID != nil, 30, xbytes(o.NodeID)),
		verifvc.OptTLV(o.Signature != nil, 240, sbytes(o.Signature)),
	)
}

func requestBytes(i *InvoiceRequest) []byte {
	return verifvc.Concat(
		verifvc.OptTLV(i.Chainhash != lntypes.ZeroHash, 3, i.Chainhash[:]),
		verifvc.OptTLV(i.OfferID != lntypes.ZeroHash, 4, i.OfferID[:]),
		verifvc.OptTLV(i.Amount != 0, 8, verifvc.Min64(uint64(i.Amount))),
		verifvc.OptTLV(i.Features != nil && !i.Features.IsEmpty(), 12, featureBytes(i.Features)),
		verifvc.OptTLV(i.Quantity != 0, 32, verifvc.Min64(i.Quantity)),
		verifvc.OptTLV(i.PayerKey != nil, 38, xbytes(i.PayerKey)),
		verifvc.OptTLV(i.PayerNote != "", 39, []byte(i.PayerNote)),
		verifvc.OptTLV(len(i.PayerInfo) != 0, 50, i.PayerInfo),
		verifvc.OptTLV(i.Signature != nil, 240, sbytes(i.Signature)),
	)
}

func invoiceBytes(i *Invoice) []byte {
	return verifvc.Concat(
		verifvc.OptTLV(i.Chainhash != lntypes.ZeroHash, 3, i.Chainhash[:]),
		verifvc.OptTLV(i.OfferID != lntypes.ZeroHash, 4, i.OfferID[:]),
		verifvc.OptTLV(i.Amount != 0, 8, verifvc.Min64(uint64(i.Amount))),
		verifvc.OptTLV(i.Description != "", 10, []byte(i.Description)),
		verifvc.OptTLV(i.Features != nil && !i.Features.IsEmpty(), 12, featureBytes(i.Features)),
		verifvc.OptTLV(i.NodeID != nil, 30, pbytes(i.NodeID)),
		verifvc.OptTLV(i.Quantity != 0, 32, verifvc.Min64(i.Quantity)),
		verifvc.OptTLV(i.PayerKey != nil, 38, pbytes(i.PayerKey)),
		verifvc.OptTLV(i.PayerNote != "", 39, []byte(i.PayerNote)),
		verifvc.OptTLV(!i.CreatedAt.IsZero(), 40, be64(uint64(i.CreatedAt.Unix()))),
		verifvc.OptTLV(i.PaymentHash != lntypes.ZeroHash, 42, i.PaymentHash[:]),
		verifvc.OptTLV(i.RelativeExpiry != 0, 44, be64(uint64(i.RelativeExpiry/time.Second))),
		verifvc.OptTLV(i.CLTVExpiry != 0, 46, be64(i.CLTVExpiry)),
		verifvc.OptTLV(len(i.PayerInfo) != 0, 50, i.PayerInfo),
		verifvc.OptTLV(i.Signature != nil, 240, sbytes(i.Signature)),
	)
}

func sameFeatures(a, b *lnwire.FeatureVector) bool {
	return b != nil && bytes.Equal(featureBytes(a), featureBytes(b))
}

// contract_encodeOffer: a record for each field that is set.
//@ contract C07 EncodeOffer DecodeOffer (*Offer).records encodeFetauresRecord tu64Record encodeTU64 decodeTU64
//@ join *
func contract_encodeOffer(o *Offer) {
	verifvc.Requires(o != nil && madeFeatures(o.Features) && len(o.Description) < 65536 && len(o.Issuer) < 65536)
	verifvc.Requires(o.Expiry.IsZero() || o.Expiry.Unix() > 0)
	b, err := EncodeOffer(o)
	want := offerBytes(o)
	verifvc.Ensures("a record for each field", err == nil && bytes.Equal(b, want))
}

// sumEncodeOffer stands for EncodeOffer; see contract_encodeOffer.
//@ summary github.com/carlakc/boltnd/lnwire.EncodeOffer
func sumEncodeOffer(o *Offer) ([]byte, error) { return offerBytes(o), nil }

// sumDecodeOffer stands for DecodeOffer; see contract_decodeOffer.
//@ summary github.com/carlakc/boltnd/lnwire.DecodeOffer
func sumDecodeOffer(b []byte) (*Offer, error) {
	v, ok := specOffer(b)
	if !ok {
		return nil, errors.New("malformed")
	}
	return v, nil
}

// contract_roundOffer: decoding what is encoded gives back every field.
//@ contract C07 EncodeOffer DecodeOffer
//@ uses sumEncodeOffer sumDecodeOffer
//@ join *
func contract_roundOffer(o *Offer) {
	verifvc.Requires(o != nil && madeFeatures(o.Features) && len(o.Description) < 65536 && len(o.Issuer) < 65536)
	verifvc.Requires(o.Expiry.IsZero() || o.Expiry.Unix() > 0)
	b, err := EncodeOffer(o)
	verifvc.Ensures("encodes", err == nil)
	root, ok := specRootOf(b)
	if !ok {
		return
	}
	got, err := DecodeOffer(b)
	verifvc.Ensures("decodes", err == nil)
	verifvc.Ensures("the fields given back", got.Chainhash == o.Chainhash && got.MinimumAmount == o.MinimumAmount &&
		got.Description == o.Description && got.Issuer == o.Issuer && got.QuantityMin == o.QuantityMin && got.QuantityMax == o.QuantityMax)
	verifvc.Ensures("the expiry given back", got.Expiry.IsZero() == o.Expiry.IsZero() && (o.Expiry.IsZero() || got.Expiry.Unix() == o.Expiry.Unix()))
	verifvc.Ensures("the features given back", sameFeatures(o.Features, got.Features))
	verifvc.Ensures("the node given back", (got.NodeID == nil) == (o.NodeID == nil) && bytes.Equal(xbytes(got.NodeID), xbytes(o.NodeID)))
	verifvc.Ensures("the signature given back", verifvc.Eq(got.Signature, o.Signature))
	verifvc.Ensures("the root of its records", got.MerkleRoot == lntypes.Hash(root))
}

// contract_encodeRequest: a record for each field that is set.
//@ contract C07 EncodeInvoiceRequest DecodeInvoiceRequest (*InvoiceRequest).records encodeFetauresRecord tu64Record encodeTU64 decodeTU64
//@ join *
func contract_encodeRequest(i *InvoiceRequest) {
	verifvc.Requires(i != nil && madeFeatures(i.Features) && len(i.PayerInfo) < 65536 && len(i.PayerNote) < 65536)
	b, err := EncodeInvoiceRequest(i)
	want := requestBytes(i)
	verifvc.Ensures("a record for each field", err == nil && bytes.Equal(b, want))
}

// sumEncodeRequest stands for EncodeInvoiceRequest; see contract_encodeRequest.
//@ summary github.com/carlakc/boltnd/lnwire.EncodeInvoiceRequest
func sumEncodeRequest(i *InvoiceRequest) ([]byte, error) { return requestBytes(i), nil }

// sumDecodeRequest stands for DecodeInvoiceRequest; see contract_decodeRequest.
//@ summary github.com/carlakc/boltnd/lnwire.DecodeInvoiceRequest
func sumDecodeRequest(b []byte) (*InvoiceRequest, error) {
	v, ok := specRequest(b)
	if !ok {
		return nil, errors.New("malformed")
	}
	return v, nil
}

// contract_roundRequest: decoding what is encoded gives back every field.
//@ contract C07 EncodeInvoiceRequest DecodeInvoiceRequest
//@ uses sumEncodeRequest sumDecodeRequest
//@ join *
func contract_roundRequest(i *InvoiceRequest) {
	verifvc.Requires(i != nil && madeFeatures(i.Features) && len(i.PayerInfo) < 65536 && len(i.PayerNote) < 65536)
	b, err := EncodeInvoiceRequest(i)
	verifvc.Ensures("encodes", err == nil)
	root, ok := specRootOf(b)
	if !ok {
		return
	}
	got, err := DecodeInvoiceRequest(b)
	verifvc.Ensures("decodes", err == nil)
	verifvc.Ensures("the fields given back", got.Chainhash == i.Chainhash && got.OfferID == i.OfferID && got.Amount == i.Amount &&
		got.Quantity == i.Quantity && got.PayerNote == i.PayerNote && bytes.Equal(got.PayerInfo, i.PayerInfo))
	verifvc.Ensures("the features given back", sameFeatures(i.Features, got.Features))
	verifvc.Ensures("the payer given back", (got.PayerKey == nil) == (i.PayerKey == nil) && bytes.Equal(xbytes(got.PayerKey), xbytes(i.PayerKey)))
	verifvc.Ensures("the signature given back", verifvc.Eq(got.Signature, i.Signature))
	verifvc.Ensures("the root of its records", got.MerkleRoot == lntypes.Hash(root))
}

// contract_encodeInvoice: a record for each field that is set.
//@ contract C07 EncodeInvoice DecodeInvoice (*Invoice).records encodeFetauresRecord tu64Record encodeTU64 decodeTU64
//@ join *
func contract_encodeInvoice(i *Invoice) {
	verifvc.Requires(i != nil && madeFeatures(i.Features) && len(i.PayerInfo) < 65536 && len(i.PayerNote) < 65536 && len(i.Description) < 65536)
	verifvc.Requires(i.RelativeExpiry >= 0 && i.RelativeExpiry%time.Second == 0)
	verifvc.Requires(i.CreatedAt.IsZero() || i.CreatedAt.Unix() > 0)
	b, err := EncodeInvoice(i)
	want := invoiceBytes(i)
	verifvc.Ensures("a record for each field", err == nil && bytes.Equal(b, want))
}

// sumEncodeInvoice stands for EncodeInvoice; see contract_encodeInvoice.
//@ summary github.com/carlakc/boltnd/lnwire.EncodeInvoice
func sumEncodeInvoice(i *Invoice) ([]byte, error) { return invoiceBytes(i), nil }

// sumDecodeInvoice stands for DecodeInvoice; see contract_decodeInvoice.
//@ summary github.com/carlakc/boltnd/lnwire.DecodeInvoice
func sumDecodeInvoice(b []byte) (*Invoice, error) {
	v, ok := specInvoice(b)
	if !ok {
		return nil, errors.New("malformed")
	}
	return v, nil
}

// contract_roundInvoice: decoding what is encoded gives back every field.
//@ contract C07 EncodeInvoice DecodeInvoice
//@ uses sumEncodeInvoice sumDecodeInvoice
//@ join *
func contract_roundInvoice(i *Invoice) {
	verifvc.Requires(i != nil && madeFeatures(i.Features) && len(i.PayerInfo) < 65536 && len(i.PayerNote) < 65536 && len(i.Description) < 65536)
	verifvc.Requires(i.RelativeExpiry >= 0 && i.RelativeExpiry%time.Second == 0)
	verifvc.Requires(i.CreatedAt.IsZero() || i.CreatedAt.Unix() > 0)
	b, err := EncodeInvoice(i)
	verifvc.Ensures("encodes", err == nil)
	root, ok := specRootOf(b)
	if !ok {
		return
	}
	got, err := DecodeInvoice(b)
	verifvc.Ensures("decodes", err == nil)
	verifvc.Ensures("the fields given back", got.Chainhash == i.Chainhash && got.OfferID == i.OfferID && got.Amount == i.Amount &&
		got.Description == i.Description && got.Quantity == i.Quantity && got.PayerNote == i.PayerNote &&
		got.PaymentHash == i.PaymentHash && got.RelativeExpiry == i.RelativeExpiry && got.CLTVExpiry == i.CLTVExpiry &&
		bytes.Equal(got.PayerInfo, i.PayerInfo))
	verifvc.Ensures("the creation time given back", got.CreatedAt.IsZero() == i.CreatedAt.IsZero() && (i.CreatedAt.IsZero() || got.CreatedAt.Unix() == i.CreatedAt.Unix()))
	verifvc.Ensures("the features given back", sameFeatures(i.Features, got.Features))
	verifvc.Ensures("the node given back", verifvc.Eq(got.NodeID, i.NodeID))
	verifvc.Ensures("the payer given back", verifvc.Eq(got.PayerKey, i.PayerKey))
	verifvc.Ensures("the signature given back", verifvc.Eq(got.Signature, i.Signature))
	verifvc.Ensures("the root of its records", got.MerkleRoot == lntypes.Hash(root))
}

func gen_contract_decodeOffer(r *verifvc.Rand) []interface{} {
	b := offerBytes(genObj(r, (*Offer)(nil)).(*Offer))
	return []interface{}{genStream(r, b)}
}

func gen_contract_decodeRequest(r *verifvc.Rand) []interface{} {
	b := requestBytes(genObj(r, (*InvoiceRequest)(nil)).(*InvoiceRequest))
	return []interface{}{genStream(r, b)}
}

func gen_contract_decodeInvoice(r *verifvc.Rand) []interface{} {
	i := genInvoice(r)
	b := invoiceBytes(i)
	if r.Coin(6) {
		recs, ok := parseTLV(b)
		if ok {
			recs = insert(recs, rawRec{44, be64(r.Uint64() >> uint(r.Intn(34)))})
			b = nil
			for _, x := range recs {
				b = append(b, x.bytes()...)
			}
		}
	}
	return []interface{}{genStream(r, b)}
}

func genInvoice(r *verifvc.Rand) *Invoice {
	i := genObj(r, (*Invoice)(nil)).(*Invoice)
	i.RelativeExpiry = time.Duration(r.Int63n(1<<33>>uint(r.Intn(34)))) * time.Second
	return i
}

func gen_contract_encodeInvoice(r *verifvc.Rand) []interface{} { return []interface{}{genInvoice(r)} }

func gen_contract_roundInvoice(r *verifvc.Rand) []interface{} { return []interface{}{genInvoice(r)} }

func genObj(r *verifvc.Rand, sample interface{}) interface{} {
	for {
		x := r.Make(sample, 4)
		if !verifvc.Eq(x, sample) {
			return x
		}
	}
}

func insert(recs []rawRec, x rawRec) []rawRec {
	var out []rawRec
	done := false
	for _, r := range recs {
		if r.typ >= x.typ && !done {
			out = append(out, x)
			done = true
		}
		if r.typ != x.typ {
			out = append(out, r)
		}
	}
	if !done {
		out = append(out, x)
	}
	return out
}

// genStream makes streams close to the one given: with records that aren't
// known, or written differently, or damaged.
func genStream(r *verifvc.Rand, b []byte) []byte {
	recs, ok := parseTLV(b)
	if ok {
		for r.Coin(2) {
			recs = insert(recs, rawRec{r.U64(), r.Bytes(20)})
		}
		if r.Coin(5) && len(recs) > 0 {
			recs[r.Intn(len(recs))].val = []byte{}
		}
		if r.Coin(8) && len(recs) > 0 {
			recs[r.Intn(len(recs))].val = r.Bytes(70)
		}
		if r.Coin(8) && len(recs) > 0 {
			i := r.Intn(len(recs))
			recs = append(recs[:i:i], recs[i+1:]...)
		}
		b = nil
		for _, x := range recs {
			b = append(b, x.bytes()...)
		}
	}
	if r.Coin(60) {
		return r.Bytes(50)
	}
	return mutate(r, b)
}

// contract_min64 checks the account of the truncated integers of lnd that the
// other contracts go by.
//@ bounded C07 encodeTU64 decodeTU64
//@ source tlv.DTUint64 tlv.ETUint64T tlv.SizeTUint64 verifvc.Min64 verifvc.UnMin64
func contract_min64(n uint64, b []byte) {
	verifvc.Requires(len(b) <= 10)
	var buf [8]byte
	var w bytes.Buffer
	verifvc.Ensures("encodes", encodeTU64(&w, &n, &buf) == nil && bytes.Equal(w.Bytes(), verifvc.Min64(n)))
	verifvc.Ensures("its length", tlv.SizeTUint64(n) == uint64(len(verifvc.Min64(n))))
	var got uint64
	err := decodeTU64(bytes.NewReader(b), &got, &buf, uint64(len(b)))
	want, ok := verifvc.UnMin64(b)
	verifvc.Ensures("decodes what has no leading zeros", (err == nil) == (ok && len(b) > 0))
	verifvc.Ensures("the integer", err != nil || got == want)
}
