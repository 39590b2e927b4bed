package rpcserver

import (
	"bytes"
	"context"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/verifvc"
	"github.com/lightningnetwork/lnd/tlv"
	"google.golang.org/grpc/codes"
)

// specPathParses holds if a path's keys are keys.
func specPathParses(p *offersrpc.BlindedPath) bool {
	if p == nil {
		return true
	}
	if _, err := btcec.ParsePubKey(p.IntroductionNode); err != nil {
		return false
	}
	if _, err := btcec.ParsePubKey(p.BlindingPoint); err != nil {
		return false
	}
	return verifvc.Forall(0, len(p.Hops), func(i int) bool {
		_, err := btcec.ParsePubKey(p.Hops[i].BlindedNodeId)
		return err == nil
	})
}

func specKey(b []byte) *btcec.PublicKey {
	k, _ := btcec.ParsePubKey(b)
	return k
}

// specSamePath holds if got is the path p, hop by hop.
func specSamePath(got *lnwire.ReplyPath, p *offersrpc.BlindedPath) bool {
	if p == nil || got == nil {
		return p == nil && got == nil
	}
	return verifvc.Eq(got.FirstNodeID, specKey(p.IntroductionNode)) &&
		verifvc.Eq(got.BlindingPoint, specKey(p.BlindingPoint)) &&
		len(got.Hops) == len(p.Hops) &&
		verifvc.Forall(0, len(p.Hops), func(i int) bool {
			return verifvc.Eq(got.Hops[i].BlindedNodeID, specKey(p.Hops[i].BlindedNodeId)) &&
				verifvc.Eq(got.Hops[i].EncryptedData, p.Hops[i].EncryptedData)
		})
}

func specNoNilHops(p *offersrpc.BlindedPath) bool {
	return p == nil || verifvc.Forall(0, len(p.Hops), func(i int) bool { return p.Hops[i] != nil })
}

// contract_parseReplyPath: every key and hop in order, or an invalid argument.
//@ contract C23 parseReplyPath
func contract_parseReplyPath(p *offersrpc.BlindedPath) {
	verifvc.Requires(specNoNilHops(p))
	got, err := parseReplyPath(p)
	if !specPathParses(p) {
		verifvc.Ensures("rejected as invalid", err != nil && verifvc.Code(err) == codes.InvalidArgument)
		verifvc.Ensures("no path with an error", got == nil)
		return
	}
	verifvc.Ensures("accepted", err == nil)
	verifvc.Ensures("the path given", specSamePath(got, p))
}

func gen_contract_parseReplyPath(r *verifvc.Rand) []interface{} {
	return []interface{}{genPath(r, 8)}
}

func genKey(r *verifvc.Rand, bad int) []byte {
	k := r.Key()
	b := k.SerializeCompressed()
	if r.Coin(5) {
		b = k.SerializeUncompressed()
	}
	if r.Coin(bad) {
		switch r.Intn(5) {
		case 0:
			b = nil
		case 1:
			b = b[:len(b)-1]
		case 2:
			b = append(b, 0)
		case 3:
			b[0] = byte(r.Intn(256))
		case 4:
			b = r.Data(70)
		}
	}
	return b
}

func genPath(r *verifvc.Rand, bad int) *offersrpc.BlindedPath {
	if r.Coin(5) {
		return nil
	}
	p := &offersrpc.BlindedPath{IntroductionNode: genKey(r, bad), BlindingPoint: genKey(r, bad)}
	for i := r.Count(5); i > 0; i-- {
		h := &offersrpc.BlindedHop{BlindedNodeId: genKey(r, 2*bad), EncryptedData: r.Data(60)}
		p.Hops = append(p.Hops, h)
	}
	return p
}

// contract_parseSend: accepted exactly when there is something to send, to one
// place.
//@ contract C23 parseSendOnionMessageRequest parseReplyPath
func contract_parseSend(req *offersrpc.SendOnionMessageRequest, pay []byte, probe uint64) {
	verifvc.Requires(req != nil && specNoNilHops(req.BlindedDestination) && specNoNilHops(req.ReplyPath))
	got, err := parseSendOnionMessageRequest(req)
	_, kerr := btcec.ParsePubKey(req.Pubkey)
	byKey, byPath := len(req.Pubkey) != 0, req.BlindedDestination != nil
	ok := byKey != byPath && specPathParses(req.ReplyPath)
	if byKey {
		ok = ok && kerr == nil
	}
	if byPath {
		ok = ok && specPathParses(req.BlindedDestination) && len(req.BlindedDestination.Hops) > 0
	}
	low := false
	for t := range req.FinalPayloads {
		if t < 64 {
			low = true
		}
	}
	if !ok || low {
		verifvc.Ensures("rejected as invalid", err != nil && verifvc.Code(err) == codes.InvalidArgument)
		verifvc.Ensures("no request with an error", got == nil)
		return
	}
	verifvc.Ensures("accepted", err == nil)
	verifvc.Ensures("the peer given", byKey == (got.Peer != nil) && (!byKey || verifvc.Eq(got.Peer, specKey(req.Pubkey))))
	verifvc.Ensures("the destination given", specSamePath(got.BlindedDestination, req.BlindedDestination))
	verifvc.Ensures("the reply path given", specSamePath(got.ReplyPath, req.ReplyPath))
	verifvc.Ensures("direct connect as given", got.DirectConnect == req.DirectConnect)
	verifvc.Ensures("every payload", len(got.FinalPayloads) == len(req.FinalPayloads))
	seen := map[uint64]bool{}
	for _, f := range got.FinalPayloads {
		v, has := req.FinalPayloads[uint64(f.TLVType)]
		verifvc.Ensures("payload given", has && bytes.Equal(v, f.Value))
		verifvc.Ensures("payload once", !seen[uint64(f.TLVType)])
		seen[uint64(f.TLVType)] = true
	}
}

func gen_contract_parseSend(r *verifvc.Rand) []interface{} {
	req := &offersrpc.SendOnionMessageRequest{ReplyPath: genPath(r, 20), DirectConnect: r.Bool(), FinalPayloads: map[uint64][]byte{}}
	switch r.Intn(7) {
	case 0, 1, 2:
		req.Pubkey = genKey(r, 8)
	case 3, 4, 5:
		req.BlindedDestination = genPath(r, 20)
	case 6:
		req.Pubkey = genKey(r, 8)
		req.BlindedDestination = genPath(r, 20)
	}
	for i := r.Count(5); i > 0; i-- {
		t := r.U64()
		if t < 64 {
			t += 64
		}
		switch {
		case r.Coin(8):
			t = uint64(r.Intn(66))
		case r.Coin(6):
			t = uint64(64 + r.Intn(2))
		case r.Coin(6):
			t = 1<<64 - 1
		}
		req.FinalPayloads[t] = r.Data(80)
	}
	if r.Coin(4) {
		req.FinalPayloads = nil
	}
	return []interface{}{req, []byte(nil), uint64(0)}
}

// contract_parseFeatures: the bits given, or an invalid argument.
//@ contract C23 parseGenerateBlindedRouteRequest
func contract_parseFeatures(bits []uint64) {
	got, err := parseGenerateBlindedRouteRequest(&offersrpc.GenerateBlindedRouteRequest{Features: bits})
	if verifvc.Exists(0, len(bits), func(i int) bool { return bits[i] > 65535 }) {
		verifvc.Ensures("rejected as invalid", err != nil && verifvc.Code(err) == codes.InvalidArgument)
		verifvc.Ensures("nothing with an error", len(got) == 0)
		return
	}
	verifvc.Ensures("accepted", err == nil)
	verifvc.Ensures("as many", len(got) == len(bits))
	verifvc.Ensures("each bit", verifvc.Forall(0, len(bits), func(i int) bool { return uint64(got[i]) == bits[i] }))
}

// contract_parseSubscribe: any type a final payload can have.
//@ contract C23 parseSubscribeOnionPayloadRequest
func contract_parseSubscribe(typ uint64) {
	got, err := parseSubscribeOnionPayloadRequest(&offersrpc.SubscribeOnionPayloadRequest{TlvType: typ})
	if typ < 64 {
		verifvc.Ensures("rejected as invalid", err != nil && verifvc.Code(err) == codes.InvalidArgument)
		return
	}
	verifvc.Ensures("the type given", err == nil && uint64(got) == typ)
}

// contract_parseDecodeOffer: an offer string that isn't empty.
//@ contract C06 C23 parseDecodeOfferRequest
func contract_parseDecodeOffer(offer string) {
	got, err := parseDecodeOfferRequest(&offersrpc.DecodeOfferRequest{Offer: offer})
	if offer == "" {
		verifvc.Ensures("rejected as invalid", err != nil && verifvc.Code(err) == codes.InvalidArgument)
		return
	}
	verifvc.Ensures("the string given", err == nil && got == offer)
}

var _ = context.Background
var _ onionmsg.OnionMessenger
var _ tlv.Type
