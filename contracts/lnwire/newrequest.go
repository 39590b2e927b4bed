package lnwire

import (
	"bytes"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/verifvc"
	"github.com/lightningnetwork/lnd/lntypes"
	"github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/tlv"
)

// contract_NewInvoiceRequest: a request is created exactly within the offer's
// terms, and carries them.
//@ contract C08 NewInvoiceRequest
//@ uses sumMerkleRoot
func contract_NewInvoiceRequest(offer *Offer, amount lnwire.MilliSatoshi, quantity uint64, payerKey *btcec.PublicKey, payerNote string) {
	verifvc.Requires(offer != nil && madeFeatures(offer.Features))
	before := verifvc.Clone(*offer)
	q, err := NewInvoiceRequest(offer, amount, quantity, payerKey, payerNote)
	verifvc.Ensures("offer unchanged", verifvc.Eq(before, *offer))
	verifvc.Ensures("a request or an error", (q == nil) == (err != nil))
	min, max := offer.QuantityMin, offer.QuantityMax
	switch {
	case amount < offer.MinimumAmount:
		verifvc.Ensures("below minimum amount", verifvc.Is(err, ErrBelowMinAmount))
		return
	case min == 0 && max == 0 && quantity != 0:
		verifvc.Ensures("no quantity expected", verifvc.Is(err, ErrNoQuantity))
		return
	case (min != 0 || max != 0) && quantity == 0:
		verifvc.Ensures("quantity required", verifvc.Is(err, ErrQuantityRequired))
		return
	case min != 0 && quantity < min || max != 0 && quantity > max:
		verifvc.Ensures("outside quantity range", verifvc.Is(err, ErrOutsideQuantityRange))
		return
	}
	// Within the terms: what can still fail is the encoding of the request
	// itself.
	w := &InvoiceRequest{
		Chainhash: offer.Chainhash,
		OfferID:   offer.MerkleRoot,
		Amount:    amount,
		Features:  offer.Features,
		Quantity:  quantity,
		PayerKey:  payerKey,
		PayerNote: payerNote,
	}
	recs, rerr := w.records()
	if rerr != nil {
		verifvc.Ensures("unencodable request", err != nil)
		return
	}
	root, merr := MerkleRoot(recs)
	if merr != nil {
		verifvc.Ensures("request without root", err != nil)
		return
	}
	verifvc.Ensures("within terms", err == nil)
	w.MerkleRoot = root
	verifvc.Ensures("request carries the terms", verifvc.Eq(*q, *w))
}

// sumMerkleRoot stands for MerkleRoot: what it gives depends on the encoding
// of the records alone.
//@ summary github.com/carlakc/boltnd/lnwire.MerkleRoot
func sumMerkleRoot(recs []tlv.Record) (lntypes.Hash, error) {
	var h lntypes.Hash
	if len(recs) == 0 {
		return h, ErrNoTLVs
	}
	var b bytes.Buffer
	s, err := tlv.NewStream(recs...)
	if err != nil {
		return h, err
	}
	if err := s.Encode(&b); err != nil {
		return h, err
	}
	if err := verifvc.Fails("merkle root", b.Bytes()); err != nil {
		return h, err
	}
	verifvc.Fn(&h, "merkle root", b.Bytes())
	return h, nil
}

func gen_contract_NewInvoiceRequest(r *verifvc.Rand) []interface{} {
	var o *Offer
	for o == nil {
		o = r.Make((*Offer)(nil), 3).(*Offer)
	}
	am := lnwire.MilliSatoshi(r.U64())
	switch r.Intn(4) {
	case 0:
		am = o.MinimumAmount
	case 1:
		am = o.MinimumAmount - 1
	case 2:
		am = o.MinimumAmount + 1
	}
	if r.Coin(3) {
		o.QuantityMin = 0
	}
	if r.Coin(3) {
		o.QuantityMax = 0
	}
	q := r.U64()
	switch r.Intn(7) {
	case 0:
		q = o.QuantityMin
	case 1:
		q = o.QuantityMin - 1
	case 2:
		q = o.QuantityMax
	case 3:
		q = o.QuantityMax + 1
	case 4:
		q = 0
	case 5:
		if o.QuantityMax > o.QuantityMin {
			q = o.QuantityMin + uint64(r.Int63())%(o.QuantityMax-o.QuantityMin)
		}
	}
	return []interface{}{o, am, q, r.Make((*btcec.PublicKey)(nil), 2), r.Make("", 1)}
}
