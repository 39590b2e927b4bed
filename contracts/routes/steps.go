package routes

import (
	"context"
	"errors"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/verifvc"
	"github.com/lightninglabs/lndclient"
	sphinx "github.com/lightningnetwork/lightning-onion"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
)

// envReply is the world a reply path is made in: what each step is given, and
// what comes of it.
type envReply struct {
	ctx      context.Context
	lnd      Lnd
	us       *btcec.PublicKey
	features []lndwire.FeatureBit
	checkErr error
	peers    []*lndclient.NodeInfo
	peersErr error
	hops     []*sphinx.BlindedPathHop
	hopsErr  error
	keyErr   error
	path     *sphinx.BlindedPath
	pathErr  error
	key      *btcec.PrivateKey
	keys     int
	blinded  int
}

var ghostReply *envReply

var errProbe = errors.New("node can't relay")

//@ summary github.com/carlakc/boltnd/routes.createRelayCheck
func sumReplyCheck(features []lndwire.FeatureBit) canRelayFunc {
	verifvc.Ensures("for the features asked for", verifvc.Eq(features, ghostReply.features))
	return func(n *lndclient.NodeInfo) error {
		return errProbe
	}
}

//@ summary github.com/carlakc/boltnd/routes.getRelayingPeers
func sumReplyPeers(ctx context.Context, lnd Lnd, relays canRelayFunc) ([]*lndclient.NodeInfo, error) {
	g := ghostReply
	verifvc.Ensures("peers of our node", ctx == g.ctx && lnd == g.lnd)
	verifvc.Ensures("peers that pass the check", relays != nil && relays(&lndclient.NodeInfo{}) == errProbe)
	if g.peersErr != nil {
		return nil, g.peersErr
	}
	return g.peers, nil
}

//@ summary github.com/carlakc/boltnd/routes.buildBlindedRoute
func sumReplyHops(peers []*lndclient.NodeInfo, us *btcec.PublicKey) ([]*sphinx.BlindedPathHop, error) {
	g := ghostReply
	verifvc.Ensures("through the relaying peers", verifvc.Eq(peers, g.peers))
	verifvc.Ensures("to us", us == g.us)
	if g.hopsErr != nil {
		return nil, g.hopsErr
	}
	return g.hops, nil
}

//@ summary github.com/btcsuite/btcd/btcec/v2.NewPrivateKey
func sumReplyKey() (*btcec.PrivateKey, error) {
	g := ghostReply
	g.keys++
	if g.keyErr != nil {
		return nil, g.keyErr
	}
	g.key = new(btcec.PrivateKey)
	return g.key, nil
}

//@ summary github.com/lightningnetwork/lightning-onion.BuildBlindedPath
func sumReplyBlind(key *btcec.PrivateKey, hops []*sphinx.BlindedPathHop) (*sphinx.BlindedPath, error) {
	g := ghostReply
	g.blinded++
	verifvc.Ensures("blinded with the fresh key", key != nil && key == g.key && g.keys == 1)
	verifvc.Ensures("the whole route", verifvc.Eq(hops, g.hops))
	if g.pathErr != nil {
		return nil, g.pathErr
	}
	return g.path, nil
}

// contract_replyPathSteps: a reply path is the blinded route to us through the
// peers that can relay the features asked for, with a key made for it alone.
//@ deductive C17 (*BlindedRouteGenerator).ReplyPath NewBlindedRouteGenerator
//@ uses sumReplyCheck sumReplyPeers sumReplyHops sumReplyKey sumReplyBlind
func contract_replyPathSteps(us *btcec.PublicKey, features []lndwire.FeatureBit, peers []*lndclient.NodeInfo,
	hops []*sphinx.BlindedPathHop, path *sphinx.BlindedPath, peersErr, hopsErr, keyErr, pathErr error) {

	verifvc.Requires(path != nil)
	g := &envReply{
		ctx: context.Background(), lnd: &envLnd{}, us: us, features: features, peers: peers, peersErr: peersErr,
		hops: hops, hopsErr: hopsErr, keyErr: keyErr, path: path, pathErr: pathErr,
	}
	ghostReply = g
	got, err := NewBlindedRouteGenerator(g.lnd, us).ReplyPath(g.ctx, features)
	switch {
	case peersErr != nil:
		verifvc.Ensures("no peers found", got == nil && verifvc.Is(err, peersErr))
	case hopsErr != nil:
		verifvc.Ensures("no route", got == nil && verifvc.Is(err, hopsErr))
	case keyErr != nil:
		verifvc.Ensures("no key", got == nil && verifvc.Is(err, keyErr))
	case pathErr != nil:
		verifvc.Ensures("route not blinded", got == nil && verifvc.Is(err, pathErr))
	default:
		verifvc.Ensures("the blinded route", err == nil && got == path && g.blinded == 1)
	}
}
