package routes

import (
	"context"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/btcutil"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/verifvc"
	"github.com/lightninglabs/lndclient"
	sphinx "github.com/lightningnetwork/lightning-onion"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// envLnd is any lnd node: its channels and graph are arbitrary, any lookup may
// fail.
type envLnd struct {
	channels, inactive []lndclient.ChannelInfo
}

func (e *envLnd) ListChannels(ctx context.Context, activeOnly, publicOnly bool) ([]lndclient.ChannelInfo, error) {
	if err := verifvc.Fails("list channels"); err != nil {
		return nil, err
	}
	out := e.channels
	if !activeOnly {
		out = append(append([]lndclient.ChannelInfo{}, e.channels...), e.inactive...)
	}
	if publicOnly {
		var public []lndclient.ChannelInfo
		for _, c := range out {
			if !c.Private {
				public = append(public, c)
			}
		}
		out = public
	}
	return out, nil
}

func (e *envLnd) GetNodeInfo(ctx context.Context, key route.Vertex, channels bool) (*lndclient.NodeInfo, error) {
	if err := verifvc.Fails("node info", key); err != nil {
		return nil, err
	}
	var n lndclient.NodeInfo
	verifvc.Fn(&n, "node info", key)
	if n.Node != nil {
		node := *n.Node
		node.PubKey = key
		n.Node = &node
	}
	if !channels {
		n.Channels = nil
	}
	return &n, nil
}

func specRelays(n *lndclient.NodeInfo, features []lndwire.FeatureBit) bool {
	if len(n.Channels) == 0 || n.Node == nil {
		return false
	}
	return verifvc.Forall(0, len(features), func(i int) bool {
		return features[i]%2 == 1 || verifvc.Exists(0, len(n.Node.Features), func(j int) bool {
			return n.Node.Features[j] == features[i]
		})
	})
}

// contract_createRelayCheck: a node can relay if it has public channels, is
// announced and sets every required feature.
//@ contract C17 createRelayCheck
func contract_createRelayCheck(features []lndwire.FeatureBit, n lndclient.NodeInfo) {
	err := createRelayCheck(features)(&n)
	switch {
	case len(n.Channels) == 0:
		verifvc.Ensures("no public channels", verifvc.Is(err, ErrNoPeerChannels))
	case n.Node == nil:
		verifvc.Ensures("not announced", verifvc.Is(err, ErrNoNodeInfo))
	case !specRelays(&n, features):
		verifvc.Ensures("missing feature", verifvc.Is(err, ErrFeatureMismatch))
	default:
		verifvc.Ensures("can relay", err == nil)
	}
}

func genFeatures(r *verifvc.Rand) []lndwire.FeatureBit {
	var fs []lndwire.FeatureBit
	for i := r.Count(4); i > 0; i-- {
		fs = append(fs, genFeature(r))
	}
	return fs
}

func genFeature(r *verifvc.Rand) lndwire.FeatureBit {
	if r.Coin(6) {
		return []lndwire.FeatureBit{30, 31, 32, 38, 39, 255, 256, 65534, 65535}[r.Intn(9)]
	}
	return lndwire.FeatureBit(r.Intn(6))
}

func genNode(r *verifvc.Rand) lndclient.NodeInfo {
	n := lndclient.NodeInfo{ChannelCount: r.Intn(5), Channels: make([]lndclient.ChannelEdge, r.Count(4))}
	for i := range n.Channels {
		if i < 5 && r.Bool() {
			n.Channels[i] = r.Make(lndclient.ChannelEdge{}, 2).(lndclient.ChannelEdge)
		}
	}
	if r.Bool() {
		n.TotalCapacity = btcutil.Amount(r.U64())
	}
	if !r.Coin(8) {
		node := r.Make(lndclient.Node{}, 2).(lndclient.Node)
		node.PubKey = route.NewVertex(r.Key())
		node.Features = nil
		for i := r.Count(6); i > 0; i-- {
			node.Features = append(node.Features, genFeature(r))
		}
		n.Node = &node
	}
	return n
}

func gen_contract_createRelayCheck(r *verifvc.Rand) []interface{} {
	return []interface{}{genFeatures(r), genNode(r)}
}

// sumRelayCheck stands for the check of a node.
//@ summary github.com/carlakc/boltnd/routes.createRelayCheck
func sumRelayCheck(features []lndwire.FeatureBit) canRelayFunc {
	return func(n *lndclient.NodeInfo) error {
		return envRelay(n)
	}
}

func envRelay(n *lndclient.NodeInfo) error {
	return verifvc.Fails("can relay", *n)
}

func specNotFound(err error) bool {
	s, ok := status.FromError(err)
	return ok && s.Code() == codes.NotFound
}

// specPeers is the eligible peers of the active channels, in order, and false
// if a lookup fails for another reason than the node not being in the graph.
func specPeers(e *envLnd, relays canRelayFunc) ([]*lndclient.NodeInfo, bool) {
	ctx := context.Background()
	var want []*lndclient.NodeInfo
	for _, c := range e.channels {
		n, err := e.GetNodeInfo(ctx, c.PubKeyBytes, true)
		if err != nil {
			if !specNotFound(err) {
				return nil, false
			}
			continue
		}
		if relays(n) == nil {
			want = append(want, n)
		}
	}
	return want, true
}

// contract_getRelayingPeers: exactly the eligible peers of active channels.
//@ contract C17 getRelayingPeers
func contract_getRelayingPeers(channels, inactive []lndclient.ChannelInfo) {
	e := &envLnd{channels, inactive}
	got, err := getRelayingPeers(context.Background(), e, envRelay)
	if lerr := verifvc.Fails("list channels"); lerr != nil {
		verifvc.Ensures("channels can't be listed", got == nil && verifvc.Is(err, lerr))
		return
	}
	if len(channels) == 0 {
		verifvc.Ensures("no channels", got == nil && verifvc.Is(err, ErrNoChannels))
		return
	}
	want, ok := specPeers(e, envRelay)
	if !ok {
		verifvc.Ensures("failed lookup", got == nil && err != nil)
		return
	}
	verifvc.Ensures("no error", err == nil)
	verifvc.Ensures("exactly the eligible peers", verifvc.Eq(got, want))
}

func genChannels(r *verifvc.Rand, active bool) []lndclient.ChannelInfo {
	verifvc.FailOneIn([]int{6, 25, 1000}[r.Intn(3)])
	var cs []lndclient.ChannelInfo
	for i := r.Count(7); i > 0; i-- {
		c := r.Make(lndclient.ChannelInfo{}, 2).(lndclient.ChannelInfo)
		c.Active, c.PubKeyBytes = active, route.NewVertex(r.Key())
		cs = append(cs, c)
	}
	return cs
}

func gen_contract_getRelayingPeers(r *verifvc.Rand) []interface{} {
	return []interface{}{genChannels(r, true), genChannels(r, false)}
}

var _ = verifvc.Register(lndclient.NodeInfo{}, func(r *verifvc.Rand) interface{} { return genNode(r) })

var _ = verifvc.Errors(status.Error(codes.NotFound, "node not found"), status.Error(codes.NotFound, "no such node"))

// contract_buildBlindedRoute: through a peer with the most channels to us.
//@ contract C17 buildBlindedRoute
//@ uses sumRouteData
func contract_buildBlindedRoute(peers []*lndclient.NodeInfo, us *btcec.PublicKey) {
	verifvc.Requires(us != nil)
	verifvc.Requires(verifvc.Forall(0, len(peers), func(i int) bool { return peers[i] != nil && peers[i].Node != nil }))
	hops, err := buildBlindedRoute(peers, us)
	if len(peers) == 0 {
		verifvc.Ensures("no peers", hops == nil && verifvc.Is(err, ErrNoRelayingPeers))
		return
	}
	payload, perr := lnwire.EncodeBlindedRouteData(&lnwire.BlindedRouteData{NextNodeID: us})
	most := func(i int) bool {
		return verifvc.Forall(0, len(peers), func(j int) bool { return len(peers[j].Channels) <= len(peers[i].Channels) })
	}
	if err != nil {
		verifvc.Ensures("no partial route", hops == nil)
		verifvc.Ensures("fails only for a bad key or payload", perr != nil || verifvc.Exists(0, len(peers), func(i int) bool {
			_, kerr := btcec.ParsePubKey(peers[i].Node.PubKey[:])
			return most(i) && kerr != nil
		}))
		return
	}
	verifvc.Ensures("payload encodes", perr == nil)
	verifvc.Ensures("two hops", len(hops) == 2 && hops[0] != nil && hops[1] != nil)
	verifvc.Ensures("through a peer with the most channels", verifvc.Exists(0, len(peers), func(i int) bool {
		k, kerr := btcec.ParsePubKey(peers[i].Node.PubKey[:])
		return most(i) && kerr == nil && verifvc.Eq(hops[0].NodePub, k)
	}))
	verifvc.Ensures("told to forward to us", verifvc.Eq(hops[0].Payload, payload))
	verifvc.Ensures("ends with us", verifvc.Eq(hops[1].NodePub, us) && len(hops[1].Payload) == 0)
}

// inv_most: the peer chosen so far is one of those seen, and has the most
// channels of them. i is the index of the last of them.
//@ invariant buildBlindedRoute
func inv_most(i int, most *lndclient.NodeInfo, argPeers []*lndclient.NodeInfo) bool {
	return (most == nil) == (i < 0) && verifvc.Forall(0, i+1, func(j int) bool {
		return len(argPeers[j].Channels) <= len(most.Channels)
	}) && (i < 0 || verifvc.Exists(0, i+1, func(j int) bool { return argPeers[j] == most }))
}

// inv_mostBefore is the same where i is the number of peers seen.
//@ invariant buildBlindedRoute
func inv_mostBefore(i int, most *lndclient.NodeInfo, argPeers []*lndclient.NodeInfo) bool {
	return inv_most(i-1, most, argPeers)
}

// inv_mostAfter is the same where i is the index of the last but one, the
// first peer being there from the start.
//@ invariant buildBlindedRoute
func inv_mostAfter(i int, most *lndclient.NodeInfo, argPeers []*lndclient.NodeInfo) bool {
	return inv_most(i+1, most, argPeers)
}

// inv_best is the same where the index of the peer is kept.
//@ invariant buildBlindedRoute
func inv_best(i, best int, argPeers []*lndclient.NodeInfo) bool {
	return best >= 0 && best < len(argPeers) && (best <= i || best == 0) && verifvc.Forall(0, i+1, func(j int) bool {
		return len(argPeers[j].Channels) <= len(argPeers[best].Channels)
	})
}

//@ invariant buildBlindedRoute
func inv_bestBefore(i, best int, argPeers []*lndclient.NodeInfo) bool {
	return inv_best(i-1, best, argPeers)
}

func gen_contract_buildBlindedRoute(r *verifvc.Rand) []interface{} {
	var ps []*lndclient.NodeInfo
	for i := r.Count(6); i > 0; i-- {
		n := genNode(r)
		if n.Node == nil {
			n.Node = &lndclient.Node{PubKey: route.NewVertex(r.Key())}
		}
		if r.Coin(20) {
			n.Node.PubKey = route.Vertex{}
		}
		ps = append(ps, &n)
	}
	return []interface{}{ps, r.Key()}
}

// contract_ReplyPath: a route that an eligible peer can relay to us along.
//@ bounded C17 (*BlindedRouteGenerator).ReplyPath NewBlindedRouteGenerator getRelayingPeers createRelayCheck buildBlindedRoute n=800
func contract_ReplyPath(channels, inactive []lndclient.ChannelInfo, features []lndwire.FeatureBit, us *btcec.PublicKey) {
	verifvc.Requires(us != nil)
	e := &envLnd{channels, inactive}
	given := append([]lndwire.FeatureBit{}, features...)
	p, err := NewBlindedRouteGenerator(e, us).ReplyPath(context.Background(), features)
	verifvc.Ensures("a path or an error", (p == nil) == (err != nil))
	if lerr := verifvc.Fails("list channels"); lerr != nil {
		verifvc.Ensures("channels can't be listed", verifvc.Is(err, lerr))
		return
	}
	if len(channels) == 0 {
		verifvc.Ensures("no channels", verifvc.Is(err, ErrNoChannels))
		return
	}
	want, ok := specPeers(e, func(n *lndclient.NodeInfo) error {
		if specRelays(n, given) {
			return nil
		}
		return ErrNoNodeInfo
	})
	if !ok {
		verifvc.Ensures("failed lookup", err != nil)
		return
	}
	if len(want) == 0 {
		verifvc.Ensures("no eligible peers", verifvc.Is(err, ErrNoRelayingPeers))
		return
	}
	verifvc.Ensures("path made", err == nil)
	most := 0
	for _, n := range want {
		if len(n.Channels) > most {
			most = len(n.Channels)
		}
	}
	found := false
	for _, n := range want {
		if len(n.Channels) == most && route.NewVertex(p.IntroductionPoint) == n.Node.PubKey {
			found = true
		}
	}
	verifvc.Ensures("introduced by an eligible peer with the most channels", found)
	verifvc.Ensures("two hops", len(p.BlindedHops) == 2 && len(p.EncryptedData) == 2)
	intro := &sphinx.PrivKeyECDH{PrivKey: verifvc.PrivOf(p.IntroductionPoint)}
	b, derr := sphinx.DecryptBlindedData(intro, p.BlindingPoint, p.EncryptedData[0])
	verifvc.Ensures("peer can decrypt", derr == nil)
	d, derr := lnwire.DecodeBlindedRouteData(b)
	verifvc.Ensures("peer forwards to us", derr == nil && d.NextNodeID != nil && d.NextNodeID.IsEqual(us) && d.NextBlindingOverride == nil)
	next, derr := sphinx.NextEphemeral(intro, p.BlindingPoint)
	verifvc.Ensures("next blinding point", derr == nil)
	b, derr = sphinx.DecryptBlindedData(&sphinx.PrivKeyECDH{PrivKey: verifvc.PrivOf(us)}, next, p.EncryptedData[1])
	verifvc.Ensures("we are last", derr == nil && len(b) == 0)
	again, derr := NewBlindedRouteGenerator(e, us).ReplyPath(context.Background(), features)
	verifvc.Ensures("fresh key for every path", derr == nil && !again.BlindingPoint.IsEqual(p.BlindingPoint))
}

func gen_contract_ReplyPath(r *verifvc.Rand) []interface{} {
	return []interface{}{genChannels(r, true), genChannels(r, false), genFeatures(r), r.Key()}
}
