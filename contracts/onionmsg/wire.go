package onionmsg

import (
	"bytes"
	"context"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/verifvc"
	"github.com/lightninglabs/lndclient"
	sphinx "github.com/lightningnetwork/lightning-onion"
	"github.com/lightningnetwork/lnd/routing/route"
)

// contract_customOnionMessage: the message is addressed to the peer, with type
// 513.
//@ contract C11 customOnionMessage (*OnionMessage).Encode
func contract_customOnionMessage(peer, blinding *btcec.PublicKey, blob []byte) {
	verifvc.Requires(peer != nil && blinding != nil)
	m, err := customOnionMessage(peer, lnwire.NewOnionMessage(blinding, blob))
	if len(blob) > 65535 {
		verifvc.Ensures("blob too long", m == nil && err != nil)
		return
	}
	verifvc.Ensures("made", err == nil && m != nil)
	verifvc.Ensures("addressed to the peer", m.Peer == route.NewVertex(peer))
	verifvc.Ensures("message type", m.MsgType == 513)
	verifvc.Ensures("wire form", verifvc.Eq(m.Data, encodeOnion(blinding, blob)))
}

func gen_contract_customOnionMessage(r *verifvc.Rand) []interface{} {
	b := r.Bytes(2000)
	if r.Coin(60) {
		b = make([]byte, 65534+r.Intn(4))
	}
	return []interface{}{r.Key(), r.Key(), b}
}

// contract_decryptBlobFunc: data comes from a non-empty blob, decrypted with
// the blinding key it came with.
//@ contract C12 decryptBlobFunc
func contract_decryptBlobFunc(node *btcec.PrivateKey, blinding *btcec.PublicKey, p *lnwire.OnionMessagePayload) {
	verifvc.Requires(node != nil && blinding != nil)
	d, err := decryptBlobFunc(&sphinx.PrivKeyECDH{PrivKey: node})(blinding, p)
	verifvc.Ensures("data or an error", (d == nil) == (err != nil))
	if p == nil {
		verifvc.Ensures("no payload", verifvc.Is(err, ErrNoForwardingPayload))
		return
	}
	if len(p.EncryptedData) == 0 {
		verifvc.Ensures("no blob", verifvc.Is(err, ErrNoEncryptedData))
		return
	}
	b, derr := sphinx.DecryptBlindedData(&sphinx.PrivKeyECDH{PrivKey: node}, blinding, p.EncryptedData)
	if derr != nil {
		verifvc.Ensures("can't be decrypted", verifvc.Is(err, derr))
		return
	}
	w, werr := lnwire.DecodeBlindedRouteData(b)
	verifvc.Ensures("fails when the data can't be decoded", (err != nil) == (werr != nil))
	if err == nil {
		verifvc.Ensures("the data", verifvc.Eq(d, w))
	}
}

func genBlob(r *verifvc.Rand, node *btcec.PublicKey, session *btcec.PrivateKey, next, override *btcec.PublicKey) []byte {
	var plain []byte
	if next != nil {
		plain = append(plain, verifvc.TLV(4, next.SerializeCompressed())...)
	}
	if override != nil {
		plain = append(plain, verifvc.TLV(8, override.SerializeCompressed())...)
	}
	if r.Coin(20) {
		plain = r.Bytes(60)
	}
	bp, err := sphinx.BuildBlindedPath(session, []*sphinx.BlindedPathHop{{NodePub: node, Payload: plain}})
	if err != nil {
		panic(err)
	}
	return bp.EncryptedData[0]
}

func maybeKey(r *verifvc.Rand) *btcec.PublicKey {
	if r.Coin(3) {
		return nil
	}
	return r.Key()
}

func gen_contract_decryptBlobFunc(r *verifvc.Rand) []interface{} {
	node, session := r.Priv(), r.Priv()
	var p *lnwire.OnionMessagePayload
	if !r.Coin(10) {
		p = &lnwire.OnionMessagePayload{EncryptedData: genBlob(r, node.PubKey(), session, maybeKey(r), maybeKey(r))}
		switch r.Intn(8) {
		case 0:
			p.EncryptedData = r.Data(80)
		case 1:
			p.EncryptedData[r.Intn(len(p.EncryptedData))] ^= 1
		case 2:
			p.EncryptedData = nil
		}
	}
	pt := session.PubKey()
	if r.Coin(6) {
		pt = r.Key()
	}
	return []interface{}{node, pt, p}
}

// contract_forwardMessage: one message, to the next node, with the next
// blinding key.
//@ contract C19 (*Messenger).forwardMessage n=1200
func contract_forwardMessage(node *btcec.PrivateKey, data lnwire.BlindedRouteData, blinding *btcec.PublicKey, pkt *sphinx.OnionPacket) {
	verifvc.Requires(node != nil && blinding != nil && pkt != nil && pkt.EphemeralKey != nil)
	lnd := &envLnd{}
	key := &envECDH{&sphinx.PrivKeyECDH{PrivKey: node}}
	m := &Messenger{lnd: lnd, nodeKeyECDH: key}
	var blob bytes.Buffer
	eerr := pkt.Encode(&blob)
	err := m.forwardMessage(&data, blinding, pkt)
	if data.NextNodeID == nil {
		verifvc.Ensures("no next node", verifvc.Is(err, ErrNoNextNodeID) && len(lnd.sent) == 0)
		return
	}
	next, nerr := sphinx.NextEphemeral(key, blinding)
	if nerr != nil && (data.NextBlindingOverride == nil || err != nil) {
		verifvc.Ensures("no next key", err != nil && len(lnd.sent) == 0)
		return
	}
	if data.NextBlindingOverride != nil {
		next = data.NextBlindingOverride
	}
	if eerr != nil {
		verifvc.Ensures("packet can't be encoded", err != nil && len(lnd.sent) == 0)
		return
	}
	verifvc.Ensures("one message", len(lnd.sent) == 1)
	verifvc.Ensures("to the next node", lnd.sent[0].Peer == route.NewVertex(data.NextNodeID))
	verifvc.Ensures("message type", lnd.sent[0].MsgType == 513)
	verifvc.Ensures("onion and next key", verifvc.Eq(lnd.sent[0].Data, encodeOnion(next, blob.Bytes())))
	serr := verifvc.Fails("send", lnd.sent[0].Peer)
	verifvc.Ensures("fails when sending does", (err != nil) == (serr != nil))
}

// envECDH is a node key whose signer can fail.
type envECDH struct{ *sphinx.PrivKeyECDH }

func (e *envECDH) ECDH(key *btcec.PublicKey) ([32]byte, error) {
	if err := verifvc.Fails("ecdh", key.SerializeCompressed()); err != nil {
		return [32]byte{}, err
	}
	return e.PrivKeyECDH.ECDH(key)
}

func genPacket(r *verifvc.Rand) *sphinx.OnionPacket {
	p := &sphinx.OnionPacket{Version: byte(r.Intn(3)), EphemeralKey: r.Key()}
	r.Read(p.RoutingInfo[:])
	r.Read(p.HeaderMAC[:])
	return p
}

func gen_contract_forwardMessage(r *verifvc.Rand) []interface{} {
	return []interface{}{r.Priv(), lnwire.BlindedRouteData{NextNodeID: maybeKey(r), NextBlindingOverride: maybeKey(r)}, r.Key(), genPacket(r)}
}

type envHandled struct {
	typ   uint64
	reply *lnwire.ReplyPath
	data  []byte
	value []byte
}

type envForward struct {
	data     *lnwire.BlindedRouteData
	blinding *btcec.PublicKey
	pkt      *sphinx.OnionPacket
}

type envMessage struct {
	processErr error
	blinding   *btcec.PublicKey
	packet     sphinx.ProcessedPacket
	decodeErr  error
	payload    lnwire.OnionMessagePayload
	decryptErr error
	data       *lnwire.BlindedRouteData
	fwdErr     error
}

type envRecorder struct{ handled []envHandled }

type envHandlerOf struct {
	rec *envRecorder
	typ tlvT
}

func (h envHandlerOf) handle(reply *lnwire.ReplyPath, data, value []byte) error {
	h.rec.handled = append(h.rec.handled, envHandled{uint64(h.typ), reply, data, value})
	return verifvc.Fails("handler", uint64(h.typ), value)
}

// contract_handleOnionMessage: a message for us reaches its handlers in order,
// one to be forwarded is forwarded.
//@ contract C18 handleOnionMessage n=4000
func contract_handleOnionMessage(e envMessage, raw []byte, types map[tlvT]bool, noHandlers bool) {
	verifvc.Requires(verifvc.Forall(0, len(e.payload.FinalHopPayloads), func(i int) bool { return e.payload.FinalHopPayloads[i] != nil }))
	rec := new(envRecorder)
	var forwarded []envForward
	var processed, decoded, decrypted [][]byte
	var handlers map[tlvT]OnionMessageHandler
	if !noHandlers {
		handlers = map[tlvT]OnionMessageHandler{}
		verifvc.MapOver(handlers, types, func(t tlvT) OnionMessageHandler { return envHandlerOf{rec, t}.handle })
	}
	kit := &onionMessageKit{
		processOnion: func(b []byte) (*btcec.PublicKey, *sphinx.ProcessedPacket, error) {
			processed = append(processed, b)
			if e.processErr != nil {
				return nil, nil, e.processErr
			}
			p := e.packet
			return e.blinding, &p, nil
		},
		decodePayload: func(b []byte) (*lnwire.OnionMessagePayload, error) {
			decoded = append(decoded, b)
			if e.decodeErr != nil {
				return nil, e.decodeErr
			}
			p := e.payload
			return &p, nil
		},
		decryptDataBlob: func(k *btcec.PublicKey, p *lnwire.OnionMessagePayload) (*lnwire.BlindedRouteData, error) {
			decrypted = append(decrypted, p.EncryptedData)
			if e.decryptErr != nil {
				return nil, e.decryptErr
			}
			return e.data, nil
		},
		handlers: handlers,
		forwardMessage: func(d *lnwire.BlindedRouteData, k *btcec.PublicKey, pkt *sphinx.OnionPacket) error {
			forwarded = append(forwarded, envForward{d, k, pkt})
			return e.fwdErr
		},
	}
	var from route.Vertex
	verifvc.Fn(&from, "sender", raw)
	err := handleOnionMessage(lndclient.CustomMessage{Peer: from, MsgType: 513, Data: raw}, kit)
	verifvc.Ensures("processed once", len(processed) == 1 && verifvc.Eq(processed[0], raw))
	if e.processErr != nil || e.decodeErr != nil {
		verifvc.Ensures("a bad message reaches nobody", verifvc.Is(err, ErrBadOnionBlob) && len(rec.handled) == 0 && len(forwarded) == 0)
		return
	}
	verifvc.Ensures("payload decoded once", len(decoded) == 1 && verifvc.Eq(decoded[0], e.packet.Payload.Payload))
	switch e.packet.Action {
	case sphinx.ExitNode:
		verifvc.Ensures("not forwarded", len(forwarded) == 0)
		var want []envHandled
		var werr error
		for _, f := range e.payload.FinalHopPayloads {
			if _, ok := handlers[f.TLVType]; !ok {
				continue
			}
			want = append(want, envHandled{uint64(f.TLVType), e.payload.ReplyPath, e.payload.EncryptedData, f.Value})
			if herr := verifvc.Fails("handler", uint64(f.TLVType), f.Value); herr != nil {
				werr = herr
				break
			}
		}
		verifvc.Ensures("handlers called in order", verifvc.Eq(rec.handled, want))
		verifvc.Ensures("the first handler error", (werr == nil) == (err == nil) && (werr == nil || verifvc.Is(err, werr)))
	case sphinx.MoreHops:
		verifvc.Ensures("not delivered", len(rec.handled) == 0)
		switch {
		case len(e.payload.FinalHopPayloads) != 0:
			verifvc.Ensures("final payloads in a forward", verifvc.Is(err, ErrFinalPayload) && len(forwarded) == 0)
		case e.packet.NextPacket == nil:
			verifvc.Ensures("no next onion", verifvc.Is(err, ErrNoForwardingOnion) && len(forwarded) == 0)
		case e.decryptErr != nil:
			verifvc.Ensures("data can't be decrypted", verifvc.Is(err, e.decryptErr) && len(forwarded) == 0)
		default:
			verifvc.Ensures("data decrypted", len(decrypted) == 1 && verifvc.Eq(decrypted[0], e.payload.EncryptedData))
			verifvc.Ensures("forwarded once", len(forwarded) == 1)
			f := forwarded[0]
			verifvc.Ensures("with its data, key and onion", f.data == e.data && f.blinding == e.blinding && f.pkt == e.packet.NextPacket)
			verifvc.Ensures("fails when forwarding does", (err == nil) == (e.fwdErr == nil))
		}
	case sphinx.Failure:
		verifvc.Ensures("a failure reaches nobody", err != nil && len(rec.handled) == 0 && len(forwarded) == 0)
	}
}

func gen_contract_handleOnionMessage(r *verifvc.Rand) []interface{} {
	e := envMessage{blinding: r.Key(), data: &lnwire.BlindedRouteData{NextNodeID: r.Key()}}
	if r.Coin(10) {
		e.processErr = r.Err()
	}
	if r.Coin(10) {
		e.decodeErr = r.Err()
	}
	if r.Coin(5) {
		e.decryptErr = r.Err()
	}
	if r.Coin(4) {
		e.fwdErr = r.Err()
	}
	e.packet = sphinx.ProcessedPacket{Action: []sphinx.ProcessCode{sphinx.ExitNode, sphinx.ExitNode, sphinx.MoreHops, sphinx.MoreHops, sphinx.Failure}[r.Intn(5)]}
	e.packet.Payload.Payload = r.Data(40)
	if !r.Coin(5) {
		e.packet.NextPacket = genPacket(r)
	}
	e.payload = lnwire.OnionMessagePayload{ReplyPath: genReply(r), EncryptedData: r.Data(40)}
	if e.packet.Action == sphinx.ExitNode || r.Coin(3) {
		e.payload.FinalHopPayloads = genFinals(r)
	}
	types := map[tlvT]bool{}
	for i := r.Count(6); i > 0; i-- {
		types[tlvType(64+uint64(r.Intn(8)))] = true
	}
	return []interface{}{e, r.Data(40), types, r.Coin(10)}
}

// contract_processOnion: a message is decoded and peeled with our key and the
// blinding key it came with.
//@ bounded C18 (*Messenger).processOnion n=800
func contract_processOnion(node *btcec.PrivateKey, raw []byte) {
	key := &sphinx.PrivKeyECDH{PrivKey: node}
	m := &Messenger{router: newRouter(key)}
	defer m.router.Stop()
	k, p, err := m.processOnion(raw)
	verifvc.Ensures("a packet or an error", (p == nil) == (err != nil) && (k == nil) == (err != nil))
	blinding, blob, ok := decodeOnion(raw)
	if !ok {
		verifvc.Ensures("malformed message", verifvc.Is(err, ErrBadMessage))
		return
	}
	pkt := new(sphinx.OnionPacket)
	if pkt.Decode(bytes.NewReader(blob)) != nil {
		verifvc.Ensures("malformed onion", verifvc.Is(err, ErrBadOnionBlob))
		return
	}
	rt := newRouter(key)
	defer rt.Stop()
	want, werr := rt.ProcessOnionPacket(pkt, nil, 0, blinding)
	verifvc.Ensures("fails when it can't be peeled", (err != nil) == (werr != nil))
	if err != nil {
		return
	}
	verifvc.Ensures("the blinding key", k.IsEqual(blinding))
	verifvc.Ensures("the peeled onion", p.Action == want.Action && verifvc.Eq(p.Payload, want.Payload) && verifvc.Eq(p.NextPacket, want.NextPacket))
	_, _, err = m.processOnion(raw)
	verifvc.Ensures("replays are rejected", err != nil)
}

// genOnion is an onion message for node, to be forwarded if next is not nil.
func genOnion(r *verifvc.Rand, node *btcec.PublicKey, next *btcec.PublicKey, payload []byte) []byte {
	session := r.Priv()
	if r.Bool() {
		var b [32]byte
		r.Read(b[:])
		session, _ = btcec.PrivKeyFromBytes(b[:])
	}
	plain := []*sphinx.BlindedPathHop{{NodePub: node}}
	if next != nil {
		plain[0].Payload = verifvc.TLV(4, next.SerializeCompressed())
		plain = append(plain, &sphinx.BlindedPathHop{NodePub: next})
	}
	bp, err := sphinx.BuildBlindedPath(session, plain)
	if err != nil {
		panic(err)
	}
	var path sphinx.PaymentPath
	for i := range plain {
		pl := payload
		if next != nil && i == 0 {
			pl = verifvc.TLV(4, bp.EncryptedData[0])
		}
		path[i] = sphinx.OnionHop{NodePub: *bp.BlindedHops[i], HopPayload: sphinx.HopPayload{Type: sphinx.PayloadTLV, Payload: pl}}
	}
	var kb [32]byte
	r.Read(kb[:])
	ok, _ := btcec.PrivKeyFromBytes(kb[:])
	pkt, err := sphinx.NewOnionPacket(&path, ok, nil, sphinx.DeterministicPacketFiller)
	if err != nil {
		panic(err)
	}
	var w bytes.Buffer
	if err := pkt.Encode(&w); err != nil {
		panic(err)
	}
	return encodeOnion(bp.BlindingPoint, w.Bytes())
}

func gen_contract_processOnion(r *verifvc.Rand) []interface{} {
	node := r.Priv()
	var next *btcec.PublicKey
	if r.Bool() {
		next = r.Key()
	}
	raw := genOnion(r, node.PubKey(), next, verifvc.TLV(64, r.Bytes(40)))
	switch r.Intn(8) {
	case 0:
		raw = raw[:r.Intn(len(raw))]
	case 1:
		raw[r.Intn(len(raw))] ^= byte(1 + r.Intn(255))
	case 2:
		raw[r.Intn(40)] ^= byte(1 + r.Intn(255))
	case 3:
		raw = append(raw, r.Bytes(20)...)
	case 4:
		node = r.Priv()
	}
	return []interface{}{node, raw}
}

var _ = context.Background
