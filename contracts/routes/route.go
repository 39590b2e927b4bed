package routes

import (
	"bytes"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/chaincfg"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/verifvc"
	sphinx "github.com/lightningnetwork/lightning-onion"
	"github.com/lightningnetwork/lnd/tlv"
)

func tlvType(n uint64) tlv.Type { return tlv.Type(n) }

// contract_validate: a request needs hops, keys and to end at the introduction
// node of its blinded destination.
//@ contract C16 (*BlindedRouteRequest).validate
func contract_validate(session, blinding *btcec.PrivateKey, hops []*btcec.PublicKey, dest *lnwire.ReplyPath) {
	verifvc.Requires(goodKeys(hops))
	verifvc.Requires(dest == nil || dest.FirstNodeID != nil)
	r := NewBlindedRouteRequest(session, blinding, hops, nil, dest, nil)
	err := r.validate()
	switch {
	case len(hops) == 0:
		verifvc.Ensures("no hops", verifvc.Is(err, ErrNoPath))
	case session == nil:
		verifvc.Ensures("no session key", verifvc.Is(err, ErrSessionKeyRequired))
	case blinding == nil:
		verifvc.Ensures("no blinding key", verifvc.Is(err, ErrBlindingKeyRequired))
	case dest != nil && !verifvc.Eq(hops[len(hops)-1], dest.FirstNodeID):
		verifvc.Ensures("no introduction node", verifvc.Is(err, ErrNoIntroductionNode))
	default:
		verifvc.Ensures("accepted", err == nil)
	}
}

func gen_contract_validate(r *verifvc.Rand) []interface{} {
	hops, dest := genTarget(r)
	return []interface{}{genPriv(r), genPriv(r), hops, dest}
}

func genPriv(r *verifvc.Rand) *btcec.PrivateKey {
	if r.Coin(8) {
		return nil
	}
	return r.Priv()
}

func genTarget(r *verifvc.Rand) ([]*btcec.PublicKey, *lnwire.ReplyPath) {
	var hops []*btcec.PublicKey
	n := r.Intn(6)
	if r.Coin(15) {
		n = r.Intn(30)
	}
	for ; n > 0; n-- {
		hops = append(hops, r.Key())
	}
	dest := genReply(r)
	if dest != nil && len(hops) > 0 && !r.Coin(6) {
		dest.FirstNodeID = hops[len(hops)-1]
	}
	return hops, dest
}

// sumPathToBlind stands for the path that is blinded.
//@ summary github.com/carlakc/boltnd/routes.createPathToBlind
func sumPathToBlind(path []*btcec.PublicKey, start *blindedStart, encode encodeBlindedPayload) ([]*sphinx.BlindedPathHop, error) {
	var dst *lnwire.BlindedRouteData
	if start != nil {
		dst = &lnwire.BlindedRouteData{NextNodeID: start.unblindedID, NextBlindingOverride: start.blindingPoint}
	}
	if err := verifvc.Fails("path to blind", path, dst); err != nil {
		return nil, err
	}
	var b []*sphinx.BlindedPathHop
	verifvc.Fn(&b, "path to blind", path, dst)
	return b, nil
}

// sumToSphinx stands for the path an onion is made for.
//@ summary github.com/carlakc/boltnd/routes.blindedToSphinx
func sumToSphinx(b *sphinx.BlindedPath, extra []*lnwire.BlindedHop, reply *lnwire.ReplyPath, finals []*lnwire.FinalHopPayload) (*sphinx.PaymentPath, error) {
	if err := verifvc.Fails("to sphinx", *b, extra, reply, finals); err != nil {
		return nil, err
	}
	p := new(sphinx.PaymentPath)
	verifvc.Fn(p, "to sphinx", *b, extra, reply, finals)
	return p, nil
}

// sumOnionMessage stands for the onion message of a path.
//@ summary github.com/carlakc/boltnd/routes.createOnionMessage
func sumOnionMessage(path *sphinx.PaymentPath, session *btcec.PrivateKey, blinding *btcec.PublicKey) (*lnwire.OnionMessage, error) {
	if err := verifvc.Fails("onion message", *path, session, blinding); err != nil {
		return nil, err
	}
	m := new(lnwire.OnionMessage)
	verifvc.Fn(m, "onion message", *path, session, blinding)
	return m, nil
}

// sumBuildBlinded stands for sphinx's route blinding.
//@ summary github.com/lightningnetwork/lightning-onion.BuildBlindedPath
func sumBuildBlinded(key *btcec.PrivateKey, hops []*sphinx.BlindedPathHop) (*sphinx.BlindedPath, error) {
	if err := verifvc.Fails("build blinded", key, hops); err != nil {
		return nil, err
	}
	b := new(sphinx.BlindedPath)
	verifvc.Fn(b, "build blinded", key, hops)
	return b, nil
}

// specRoute is the message for a valid request.
func specRoute(session, blinding *btcec.PrivateKey, hops []*btcec.PublicKey, reply, dest *lnwire.ReplyPath, finals []*lnwire.FinalHopPayload) (*lnwire.OnionMessage, error) {
	if dest != nil && len(hops) == 1 {
		p, err := blindedToSphinx(&sphinx.BlindedPath{}, dest.Hops, reply, finals)
		if err != nil {
			return nil, err
		}
		return createOnionMessage(p, session, dest.BlindingPoint)
	}
	ours := hops
	var start *blindedStart
	var extra []*lnwire.BlindedHop
	if dest != nil {
		ours = hops[:len(hops)-1]
		start = &blindedStart{unblindedID: dest.FirstNodeID, blindingPoint: dest.BlindingPoint}
		extra = dest.Hops
	}
	plain, err := createPathToBlind(ours, start, encodeBlindedData)
	if err != nil {
		return nil, err
	}
	blinded, err := sphinx.BuildBlindedPath(blinding, plain)
	if err != nil {
		return nil, err
	}
	p, err := blindedToSphinx(blinded, extra, reply, finals)
	if err != nil {
		return nil, err
	}
	return createOnionMessage(p, session, blinding.PubKey())
}

// contract_CreateBlindedRoute: the message for a request, to its first node.
//@ contract C16 CreateBlindedRoute directToBlinded NewBlindedRouteRequest (*BlindedRouteRequest).blindedStart (*BlindedRouteRequest).blindedHops n=1200
//@ uses sumPathToBlind sumToSphinx sumOnionMessage sumBuildBlinded
func contract_CreateBlindedRoute(session, blinding *btcec.PrivateKey, hops []*btcec.PublicKey, reply, dest *lnwire.ReplyPath, finals []*lnwire.FinalHopPayload) {
	verifvc.Requires(goodKeys(hops))
	verifvc.Requires(dest == nil || dest.FirstNodeID != nil && dest.BlindingPoint != nil && goodHops(dest.Hops))
	given := append([]*btcec.PublicKey{}, hops...)
	resp, err := CreateBlindedRoute(NewBlindedRouteRequest(session, blinding, hops, reply, dest, finals))
	verifvc.Ensures("a message or an error", (resp == nil) == (err != nil))
	switch {
	case len(given) == 0:
		verifvc.Ensures("no hops", verifvc.Is(err, ErrNoPath))
		return
	case session == nil:
		verifvc.Ensures("no session key", verifvc.Is(err, ErrSessionKeyRequired))
		return
	case blinding == nil:
		verifvc.Ensures("no blinding key", verifvc.Is(err, ErrBlindingKeyRequired))
		return
	case dest != nil && !verifvc.Eq(given[len(given)-1], dest.FirstNodeID):
		verifvc.Ensures("no introduction node", verifvc.Is(err, ErrNoIntroductionNode))
		return
	}
	want, werr := specRoute(session, blinding, given, reply, dest, finals)
	verifvc.Ensures("fails exactly when a step does", (err != nil) == (werr != nil))
	if err != nil {
		return
	}
	verifvc.Ensures("sent to the first node", verifvc.Eq(resp.FirstNode, given[0]))
	verifvc.Ensures("the message", resp.OnionMessage != nil && verifvc.Eq(*resp.OnionMessage, *want))
}

func gen_contract_CreateBlindedRoute(r *verifvc.Rand) []interface{} {
	hops, dest := genTarget(r)
	return []interface{}{genPriv(r), genPriv(r), hops, genReply(r), dest, genFinals(r)}
}

// contract_delivery follows a message from node to node: every node finds the
// next one in the data that is encrypted to it, and only the last of all gets
// the final payloads and the reply path.
//@ bounded C14 C15 C16 CreateBlindedRoute createPathToBlind blindedToSphinx createOnionMessage n=250
func contract_delivery(session, blinding *btcec.PrivateKey, ours, theirs []*btcec.PublicKey, destKey *btcec.PrivateKey, reply *lnwire.ReplyPath, finals []*lnwire.FinalHopPayload) {
	hops := append([]*btcec.PublicKey{}, ours...)
	var dest *lnwire.ReplyPath
	if len(theirs) > 0 {
		var plain []*sphinx.BlindedPathHop
		for i, k := range theirs {
			h := &sphinx.BlindedPathHop{NodePub: k}
			if i+1 < len(theirs) {
				b, err := lnwire.EncodeBlindedRouteData(&lnwire.BlindedRouteData{NextNodeID: theirs[i+1]})
				if err != nil {
					panic(err)
				}
				h.Payload = b
			}
			plain = append(plain, h)
		}
		bp, err := sphinx.BuildBlindedPath(destKey, plain)
		if err != nil {
			panic(err)
		}
		dest = &lnwire.ReplyPath{FirstNodeID: theirs[0], BlindingPoint: bp.BlindingPoint}
		for i := range bp.BlindedHops {
			dest.Hops = append(dest.Hops, &lnwire.BlindedHop{BlindedNodeID: bp.BlindedHops[i], EncryptedData: bp.EncryptedData[i]})
		}
		hops = append(hops, theirs[0])
	}
	verifvc.Requires(len(hops) > 0)
	resp, err := CreateBlindedRoute(NewBlindedRouteRequest(session, blinding, hops, reply, dest, finals))
	verifvc.Requires(err == nil)
	all := append(append([]*btcec.PublicKey{}, ours...), theirs...)
	verifvc.Ensures("sent to the first node", resp.FirstNode.IsEqual(all[0]))
	point := resp.OnionMessage.BlindingPoint
	pkt := new(sphinx.OnionPacket)
	verifvc.Ensures("an onion", pkt.Decode(bytes.NewReader(resp.OnionMessage.OnionBlob)) == nil)
	for i, k := range all {
		node := &sphinx.PrivKeyECDH{PrivKey: verifvc.PrivOf(k)}
		rt := sphinx.NewRouter(node, &chaincfg.RegressionNetParams, sphinx.NewMemoryReplayLog())
		if err := rt.Start(); err != nil {
			panic(err)
		}
		proc, err := rt.ProcessOnionPacket(pkt, nil, 0, point)
		rt.Stop()
		verifvc.Ensures("every node can peel its layer", err == nil)
		pl, err := lnwire.DecodeOnionMessagePayload(proc.Payload.Payload)
		verifvc.Ensures("every node can read its payload", err == nil)
		last := i == len(all)-1
		if last {
			verifvc.Ensures("the last node is the exit", proc.Action == sphinx.ExitNode)
			verifvc.Ensures("the last node gets the final payloads", verifvc.Eq(pl.FinalHopPayloads, finals))
			verifvc.Ensures("the last node gets the reply path", verifvc.Eq(pl.ReplyPath, reply))
			break
		}
		verifvc.Ensures("others are to forward", proc.Action == sphinx.MoreHops)
		verifvc.Ensures("others get no final payloads", len(pl.FinalHopPayloads) == 0 && pl.ReplyPath == nil)
		plain, err := sphinx.DecryptBlindedData(node, point, pl.EncryptedData)
		verifvc.Ensures("others can decrypt their data", err == nil)
		data, err := lnwire.DecodeBlindedRouteData(plain)
		verifvc.Ensures("others can read their data", err == nil)
		verifvc.Ensures("the data names the next node", data.NextNodeID != nil && data.NextNodeID.IsEqual(all[i+1]))
		override := len(theirs) > 0 && i == len(ours)-1
		verifvc.Ensures("only the last of our hops carries an override", (data.NextBlindingOverride != nil) == override)
		next, err := sphinx.NextEphemeral(node, point)
		verifvc.Ensures("next blinding point", err == nil)
		if override {
			verifvc.Ensures("the override is the destination's", data.NextBlindingOverride.IsEqual(dest.BlindingPoint))
			next = data.NextBlindingOverride
		}
		point, pkt = next, proc.NextPacket
	}
}

func gen_contract_delivery(r *verifvc.Rand) []interface{} {
	var ours, theirs []*btcec.PublicKey
	for i := r.Intn(5); i > 0; i-- {
		ours = append(ours, r.Key())
	}
	for i := r.Intn(4); i > 0; i-- {
		theirs = append(theirs, r.Key())
	}
	return []interface{}{r.Priv(), r.Priv(), ours, theirs, r.Priv(), genReply(r), genFinals(r)}
}
