package routes

import (
	"bytes"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/verifvc"
	sphinx "github.com/lightningnetwork/lightning-onion"
)

// sumPayload stands for the encoding of an onion payload.
//@ summary github.com/carlakc/boltnd/lnwire.EncodeOnionMessagePayload
func sumPayload(o *lnwire.OnionMessagePayload) ([]byte, error) {
	if err := verifvc.Fails("onion payload", *o); err != nil {
		return nil, err
	}
	var b []byte
	verifvc.Fn(&b, "onion payload", *o)
	return b, nil
}

func wantPayload(data []byte, last bool, reply *lnwire.ReplyPath, finals []*lnwire.FinalHopPayload) *lnwire.OnionMessagePayload {
	p := &lnwire.OnionMessagePayload{EncryptedData: data}
	if last {
		p.ReplyPath = reply
		p.FinalHopPayloads = finals
	}
	return p
}

func payloadFails(p *lnwire.OnionMessagePayload) bool {
	_, err := lnwire.EncodeOnionMessagePayload(p)
	return err != nil
}

func payloadBytes(p *lnwire.OnionMessagePayload) []byte {
	b, _ := lnwire.EncodeOnionMessagePayload(p)
	return b
}

func goodHops(hops []*lnwire.BlindedHop) bool {
	return verifvc.Forall(0, len(hops), func(i int) bool {
		return hops[i] != nil && hops[i].BlindedNodeID != nil
	})
}

func goodKeys(keys []*btcec.PublicKey) bool {
	return verifvc.Forall(0, len(keys), func(i int) bool { return keys[i] != nil })
}

// contract_blindedToSphinx: the hops of both paths in order, each with its own
// key and data, and the final payloads and reply path in the last one only.
//@ contract C15 blindedToSphinx createSphinxHop
//@ uses sumPayload
func contract_blindedToSphinx(route *sphinx.BlindedPath, extra []*lnwire.BlindedHop, reply *lnwire.ReplyPath, finals []*lnwire.FinalHopPayload) {
	verifvc.Requires(route != nil && len(route.BlindedHops) == len(route.EncryptedData))
	verifvc.Requires(goodKeys(route.BlindedHops) && goodHops(extra))
	n, m := len(route.EncryptedData), len(extra)
	path, err := blindedToSphinx(route, extra, reply, finals)
	if n+m > 27 {
		verifvc.Ensures("too many hops for an onion", path == nil && verifvc.Is(err, ErrTooManyHops))
		return
	}
	fails := verifvc.Exists(0, n, func(i int) bool {
		return payloadFails(wantPayload(route.EncryptedData[i], i == n-1 && m == 0, reply, finals))
	}) || verifvc.Exists(0, m, func(i int) bool {
		return payloadFails(wantPayload(extra[i].EncryptedData, i == m-1, reply, finals))
	})
	if fails {
		verifvc.Ensures("a payload that can't be encoded fails the path", path == nil && err != nil)
		return
	}
	verifvc.Ensures("path created", err == nil && path != nil)
	verifvc.Ensures("our hops first", verifvc.Forall(0, n, func(i int) bool {
		return verifvc.Eq(path[i].NodePub, *route.BlindedHops[i])
	}))
	verifvc.Ensures("our hops' payloads", verifvc.Forall(0, n, func(i int) bool {
		return path[i].HopPayload.Type == sphinx.PayloadTLV && verifvc.Eq(path[i].HopPayload.Payload,
			payloadBytes(wantPayload(route.EncryptedData[i], i == n-1 && m == 0, reply, finals)))
	}))
	verifvc.Ensures("their hops next", verifvc.Forall(0, m, func(i int) bool {
		return verifvc.Eq(path[n+i].NodePub, *extra[i].BlindedNodeID)
	}))
	verifvc.Ensures("their hops' payloads", verifvc.Forall(0, m, func(i int) bool {
		return path[n+i].HopPayload.Type == sphinx.PayloadTLV && verifvc.Eq(path[n+i].HopPayload.Payload,
			payloadBytes(wantPayload(extra[i].EncryptedData, i == m-1, reply, finals)))
	}))
	verifvc.Ensures("nothing else", verifvc.Forall(n+m, 27, func(i int) bool {
		return path[i].HopPayload.Type == 0 && len(path[i].HopPayload.Payload) == 0
	}))
}

func genFinals(r *verifvc.Rand) []*lnwire.FinalHopPayload {
	var fs []*lnwire.FinalHopPayload
	t := uint64(63)
	if !r.Coin(20) {
		t++
	}
	for i := r.Len(4); i > 0; i-- {
		fs = append(fs, &lnwire.FinalHopPayload{TLVType: tlvType(t), Value: r.Bytes(40)})
		t += 1 + uint64(r.Intn(5))
	}
	return fs
}

func genHops(r *verifvc.Rand, max int) []*lnwire.BlindedHop {
	var hs []*lnwire.BlindedHop
	for i := r.Intn(max + 1); i > 0; i-- {
		hs = append(hs, &lnwire.BlindedHop{BlindedNodeID: r.Key(), EncryptedData: r.Bytes(60)})
	}
	return hs
}

func genReply(r *verifvc.Rand) *lnwire.ReplyPath {
	if r.Bool() {
		return nil
	}
	hs := genHops(r, 3)
	if len(hs) == 0 && !r.Coin(10) {
		hs = []*lnwire.BlindedHop{{BlindedNodeID: r.Key(), EncryptedData: r.Bytes(60)}}
	}
	return &lnwire.ReplyPath{FirstNodeID: r.Key(), BlindingPoint: r.Key(), Hops: hs}
}

func gen_contract_blindedToSphinx(r *verifvc.Rand) []interface{} {
	p := &sphinx.BlindedPath{}
	max := 6
	if r.Coin(3) {
		max = 27
	}
	for i := r.Intn(max + 1); i > 0; i-- {
		p.BlindedHops = append(p.BlindedHops, r.Key())
		p.EncryptedData = append(p.EncryptedData, r.Data(60))
	}
	extra := genHops(r, max)
	if n := len(p.BlindedHops); r.Coin(6) && n > 0 {
		for len(extra)+n < 27 {
			extra = append(extra, &lnwire.BlindedHop{BlindedNodeID: r.Key(), EncryptedData: r.Data(60)})
		}
		if r.Bool() {
			extra = append(extra, &lnwire.BlindedHop{BlindedNodeID: r.Key()})
		}
	}
	return []interface{}{p, extra, genReply(r), genFinals(r)}
}

// contract_encodeBlindedData: data for a hop always names a next node.
//@ contract C12 encodeBlindedData
//@ uses sumRouteData
func contract_encodeBlindedData(data lnwire.BlindedRouteData) {
	b, err := encodeBlindedData(&data)
	if data.NextNodeID == nil {
		verifvc.Ensures("next node required", err != nil && b == nil)
		return
	}
	w, werr := lnwire.EncodeBlindedRouteData(&data)
	verifvc.Ensures("fails when the encoding does", (err != nil) == (werr != nil))
	if err == nil {
		verifvc.Ensures("the encoding", verifvc.Eq(b, w))
	} else {
		verifvc.Ensures("no partial encoding", b == nil)
	}
}

// sumRouteData stands for the encoding of route data.
//@ summary github.com/carlakc/boltnd/lnwire.EncodeBlindedRouteData
func sumRouteData(d *lnwire.BlindedRouteData) ([]byte, error) {
	if err := verifvc.Fails("route data", *d); err != nil {
		return nil, err
	}
	var b []byte
	verifvc.Fn(&b, "route data", *d)
	return b, nil
}

// specOnion is the onion for a path, encoded.
func specOnion(path *sphinx.PaymentPath, key *btcec.PrivateKey) ([]byte, error) {
	pkt, err := sphinx.NewOnionPacket(path, key, nil, sphinx.DeterministicPacketFiller)
	if err != nil {
		return nil, err
	}
	w := new(bytes.Buffer)
	if err := pkt.Encode(w); err != nil {
		return nil, err
	}
	return w.Bytes(), nil
}

// contract_createOnionMessage: the message is the onion for the path and the
// blinding point.
//@ contract C16 createOnionMessage
func contract_createOnionMessage(path *sphinx.PaymentPath, session *btcec.PrivateKey, blinding *btcec.PublicKey) {
	verifvc.Requires(path != nil && session != nil && blinding != nil)
	msg, err := createOnionMessage(path, session, blinding)
	blob, werr := specOnion(path, session)
	verifvc.Ensures("fails when there is no onion", (err != nil) == (werr != nil))
	if err != nil {
		verifvc.Ensures("no message", msg == nil)
		return
	}
	verifvc.Ensures("the message", msg != nil && verifvc.Eq(msg.BlindingPoint, blinding) && verifvc.Eq(msg.OnionBlob, blob))
}

func genPath(r *verifvc.Rand) *sphinx.PaymentPath {
	var p sphinx.PaymentPath
	for i := r.Intn(6); i >= 0; i-- {
		p[i] = sphinx.OnionHop{NodePub: *r.Key(), HopPayload: sphinx.HopPayload{Type: sphinx.PayloadTLV, Payload: r.Bytes(400)}}
	}
	return &p
}

func gen_contract_createOnionMessage(r *verifvc.Rand) []interface{} {
	return []interface{}{genPath(r), r.Priv(), r.Key()}
}
