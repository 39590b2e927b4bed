package lnwire

import (
	"bytes"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/verifvc"
)

// contract_codecAgain: what was decoded or encoded stays as it was while
// others are, shares nothing with the bytes it was decoded from that matters,
// and is the same when done again.
//@ bounded C07 C02 C01 DecodeOffer DecodeInvoiceRequest DecodeInvoice EncodeOffer EncodeInvoiceRequest EncodeInvoice MerkleRoot n=500
func contract_codecAgain(offer, otherOffer, request, otherRequest, invoice, otherInvoice []byte) {
	o, oerr := DecodeOffer(offer)
	q, qerr := DecodeInvoiceRequest(request)
	i, ierr := DecodeInvoice(invoice)
	keptO, keptQ, keptI := verifvc.Clone(o), verifvc.Clone(q), verifvc.Clone(i)
	other, err := DecodeOffer(otherOffer)
	if err == nil {
		_, _ = EncodeOffer(other)
	}
	otherQ, err := DecodeInvoiceRequest(otherRequest)
	if err == nil {
		_, _ = EncodeInvoiceRequest(otherQ)
	}
	otherI, err := DecodeInvoice(otherInvoice)
	if err == nil {
		_, _ = EncodeInvoice(otherI)
	}
	verifvc.Ensures("offer as decoded", verifvc.Eq(o, keptO))
	verifvc.Ensures("request as decoded", verifvc.Eq(q, keptQ))
	verifvc.Ensures("invoice as decoded", verifvc.Eq(i, keptI))
	o2, oerr2 := DecodeOffer(offer)
	q2, qerr2 := DecodeInvoiceRequest(request)
	i2, ierr2 := DecodeInvoice(invoice)
	verifvc.Ensures("the same errors again", (oerr == nil) == (oerr2 == nil) && (qerr == nil) == (qerr2 == nil) && (ierr == nil) == (ierr2 == nil))
	verifvc.Ensures("the same offer again", verifvc.Eq(o2, keptO))
	verifvc.Ensures("the same request again", verifvc.Eq(q2, keptQ))
	verifvc.Ensures("the same invoice again", verifvc.Eq(i2, keptI))
	if oerr == nil {
		b, err := EncodeOffer(o)
		kept := append([]byte{}, b...)
		if err == nil && ierr == nil {
			_, _ = EncodeInvoice(i)
		}
		verifvc.Ensures("encoding as made", bytes.Equal(b, kept))
	}
}

func gen_contract_codecAgain(r *verifvc.Rand) []interface{} {
	return []interface{}{gen_contract_decodeOffer(r)[0], gen_contract_decodeOffer(r)[0],
		gen_contract_decodeRequest(r)[0], gen_contract_decodeRequest(r)[0],
		gen_contract_decodeInvoice(r)[0], gen_contract_decodeInvoice(r)[0]}
}

// contract_payloadAgain: the same for onion payloads, route data and onion
// messages.
//@ bounded C09 C10 C11 C12 DecodeOnionMessagePayload EncodeOnionMessagePayload EncodeBlindedRouteData DecodeBlindedRouteData (*OnionMessage).Decode (*OnionMessage).Encode n=500
func contract_payloadAgain(payload, other *OnionMessagePayload, next, override, otherNext *btcec.PublicKey, blob, otherBlob []byte) {
	b, err := EncodeOnionMessagePayload(payload)
	keptB := append([]byte{}, b...)
	var got *OnionMessagePayload
	var kept interface{}
	var derr error
	if err == nil {
		got, derr = DecodeOnionMessagePayload(b)
		kept = verifvc.Clone(got)
	}
	ob, oerr := EncodeOnionMessagePayload(other)
	if oerr == nil {
		_, _ = DecodeOnionMessagePayload(ob)
	}
	verifvc.Ensures("payload encoding as made", bytes.Equal(b, keptB))
	verifvc.Ensures("payload as decoded", err != nil || verifvc.Eq(got, kept))
	b2, err2 := EncodeOnionMessagePayload(payload)
	verifvc.Ensures("the same encoding again", (err == nil) == (err2 == nil) && bytes.Equal(b2, keptB))
	if err == nil {
		got2, derr2 := DecodeOnionMessagePayload(keptB)
		verifvc.Ensures("the same payload again", (derr == nil) == (derr2 == nil) && verifvc.Eq(got2, kept))
	}

	d, err := EncodeBlindedRouteData(&BlindedRouteData{NextNodeID: next, NextBlindingOverride: override})
	keptD := append([]byte{}, d...)
	data, derr := DecodeBlindedRouteData(d)
	keptData := verifvc.Clone(data)
	od, _ := EncodeBlindedRouteData(&BlindedRouteData{NextNodeID: otherNext})
	_, _ = DecodeBlindedRouteData(od)
	verifvc.Ensures("route data encoding as made", err == nil && bytes.Equal(d, keptD))
	verifvc.Ensures("route data as decoded", derr == nil && verifvc.Eq(data, keptData))

	if next == nil || otherNext == nil || len(blob) > 65535 || len(otherBlob) > 65535 {
		return
	}
	var w bytes.Buffer
	m := NewOnionMessage(next, blob)
	om := NewOnionMessage(otherNext, otherBlob)
	verifvc.Ensures("messages are apart", m.BlindingPoint.IsEqual(next) && bytes.Equal(m.OnionBlob, blob))
	verifvc.Ensures("both encode to one writer", m.Encode(&w, 0) == nil && om.Encode(&w, 0) == nil)
	rd := bytes.NewReader(w.Bytes())
	m1, m2 := &OnionMessage{}, &OnionMessage{}
	verifvc.Ensures("both decode from one reader", m1.Decode(rd, 0) == nil && m2.Decode(rd, 0) == nil)
	verifvc.Ensures("each as encoded", m1.BlindingPoint.IsEqual(next) && bytes.Equal(m1.OnionBlob, blob) &&
		m2.BlindingPoint.IsEqual(otherNext) && bytes.Equal(m2.OnionBlob, otherBlob))
}

func gen_contract_payloadAgain(r *verifvc.Rand) []interface{} {
	key := func() *btcec.PublicKey {
		if r.Coin(6) {
			return nil
		}
		return r.Key()
	}
	return []interface{}{genPayload(r), genPayload(r), key(), key(), key(), r.Data(200), r.Data(200)}
}
