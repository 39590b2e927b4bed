package routes

import (
	"context"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/verifvc"
	"github.com/lightninglabs/lndclient"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/routing/route"
)

// contract_ReplyPathAgain: a generator's paths are through peers that are
// eligible when it is asked, for the features it is asked for, and a path it
// made stays as it was.
//@ bounded C17 (*BlindedRouteGenerator).ReplyPath n=500
func contract_ReplyPathAgain(before, channels []lndclient.ChannelInfo, had, features []lndwire.FeatureBit, us *btcec.PublicKey) {
	verifvc.Requires(us != nil)
	e := &envLnd{before, nil}
	g := NewBlindedRouteGenerator(e, us)
	first, err := g.ReplyPath(context.Background(), had)
	var kept interface{}
	if err == nil {
		kept = verifvc.Clone(first)
	}
	e.channels = channels
	p, perr := g.ReplyPath(context.Background(), features)
	verifvc.Ensures("an earlier path stays as it was", err != nil || verifvc.Eq(first, kept))
	w, werr := NewBlindedRouteGenerator(e, us).ReplyPath(context.Background(), features)
	verifvc.Ensures("fails exactly if it would have anyway", (perr == nil) == (werr == nil))
	if perr != nil {
		return
	}
	want, ok := specPeers(e, func(n *lndclient.NodeInfo) error {
		if specRelays(n, features) {
			return nil
		}
		return ErrNoNodeInfo
	})
	most := 0
	for _, n := range want {
		if len(n.Channels) > most {
			most = len(n.Channels)
		}
	}
	found := false
	for _, n := range want {
		if len(n.Channels) == most && route.NewVertex(p.IntroductionPoint) == n.Node.PubKey {
			found = true
		}
	}
	verifvc.Ensures("through a peer that is eligible now", ok && found)
	verifvc.Ensures("with keys of its own", !p.BlindingPoint.IsEqual(w.BlindingPoint) && (err != nil || !p.BlindingPoint.IsEqual(first.BlindingPoint)))
}

func gen_contract_ReplyPathAgain(r *verifvc.Rand) []interface{} {
	cs := genChannels(r, true)
	verifvc.FailOneIn(40)
	next := genChannels(r, true)
	verifvc.FailOneIn(40)
	if r.Coin(3) {
		next = cs
	}
	fs := genFeatures(r)
	other := genFeatures(r)
	if r.Bool() {
		other = fs
	}
	return []interface{}{cs, next, other, fs, r.Key()}
}

// contract_routeAgain: a message made for one request stays as it was while
// those for others are made, and is the same when asked for again.
//@ bounded C14 C15 C16 CreateBlindedRoute createPathToBlind blindedToSphinx createOnionMessage n=400
func contract_routeAgain(session, blinding *btcec.PrivateKey, hops, otherHops []*btcec.PublicKey, reply, dest, otherDest *lnwire.ReplyPath, finals []*lnwire.FinalHopPayload) {
	verifvc.Requires(len(hops) > 0 && len(otherHops) > 0)
	verifvc.Requires(goodKeys(hops) && goodKeys(otherHops))
	verifvc.Requires(dest == nil || dest.FirstNodeID != nil && dest.BlindingPoint != nil && goodHops(dest.Hops))
	verifvc.Requires(otherDest == nil || otherDest.FirstNodeID != nil && otherDest.BlindingPoint != nil && goodHops(otherDest.Hops))
	start := func(d *lnwire.ReplyPath) *blindedStart {
		if d == nil {
			return nil
		}
		return &blindedStart{unblindedID: d.FirstNodeID, blindingPoint: d.BlindingPoint}
	}
	blind, err := createPathToBlind(hops, start(dest), encodeBlindedData)
	verifvc.Ensures("hops made", err == nil)
	kept := verifvc.Clone(blind)
	make := func(hops []*btcec.PublicKey, dest *lnwire.ReplyPath) (*BlindedRouteResponse, error) {
		return CreateBlindedRoute(NewBlindedRouteRequest(session, blinding, append([]*btcec.PublicKey{}, hops...), reply, dest, finals))
	}
	first, err := make(hops, dest)
	var message interface{}
	if err == nil {
		message = verifvc.Clone(first.OnionMessage)
	}
	_, _ = createPathToBlind(otherHops, start(otherDest), encodeBlindedData)
	_, _ = make(otherHops, otherDest)
	verifvc.Ensures("hops as made", verifvc.Eq(blind, kept))
	again, aerr := make(hops, dest)
	verifvc.Ensures("fails exactly if it did before", (aerr == nil) == (err == nil))
	if err == nil {
		verifvc.Ensures("message as made", verifvc.Eq(first.OnionMessage, message))
		verifvc.Ensures("the same when made again", verifvc.Eq(again.OnionMessage, message) && again.FirstNode.IsEqual(first.FirstNode))
	}
}

func gen_contract_routeAgain(r *verifvc.Rand) []interface{} {
	hops, dest := genTarget(r)
	other, otherDest := genTarget(r)
	if r.Bool() && len(other) > 0 && len(hops) > 0 && otherDest == nil {
		other[0] = hops[0]
	}
	return []interface{}{r.Priv(), r.Priv(), hops, other, genReply(r), dest, otherDest, genFinals(r)}
}
