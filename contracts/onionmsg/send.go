package onionmsg

import (
	"context"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/verifvc"
	"github.com/lightninglabs/lndclient"
	sphinx "github.com/lightningnetwork/lightning-onion"
	"github.com/lightningnetwork/lnd/routing/route"
)

// contract_requestValidate: exactly one destination, with hops if blinded.
//@ contract C22 (*SendMessageRequest).Validate (*SendMessageRequest).targetPeer NewSendMessageRequest
func contract_requestValidate(peer *btcec.PublicKey, dest, reply *lnwire.ReplyPath, finals []*lnwire.FinalHopPayload, direct bool) {
	s := NewSendMessageRequest(peer, dest, reply, finals, direct)
	verifvc.Ensures("request holds what is given", s.Peer == peer && s.BlindedDestination == dest && s.ReplyPath == reply &&
		s.DirectConnect == direct && verifvc.Eq(s.FinalPayloads, finals))
	err := s.Validate()
	switch {
	case peer != nil && dest != nil:
		verifvc.Ensures("both destinations", verifvc.Is(err, ErrBothDest))
	case peer == nil && dest == nil:
		verifvc.Ensures("no destination", verifvc.Is(err, ErrNoDest))
	case dest != nil && len(dest.Hops) == 0:
		verifvc.Ensures("no hops", verifvc.Is(err, ErrNoBlindedHops))
	default:
		verifvc.Ensures("accepted", err == nil)
		if peer != nil {
			verifvc.Ensures("target is the peer", s.targetPeer() == peer)
		} else {
			verifvc.Ensures("target is the introduction node", s.targetPeer() == dest.FirstNodeID)
		}
	}
}

// contract_findPeer: whether the peer is among lnd's peers.
//@ contract C22 (*Messenger).findPeer
func contract_findPeer(peer *btcec.PublicKey, peers []lndclient.Peer, fails bool) {
	verifvc.Requires(peer != nil)
	e := &envLnd{others: peers, connected: -1, listFails: -1}
	if fails {
		e.listFails = 0
	}
	got, err := (&Messenger{lnd: e}).findPeer(context.Background(), peer)
	if fails {
		verifvc.Ensures("peers can't be listed", !got && verifvc.Is(err, errList))
		return
	}
	v := route.NewVertex(peer)
	verifvc.Ensures("no error", err == nil)
	verifvc.Ensures("found if listed", got == verifvc.Exists(0, len(peers), func(i int) bool { return peers[i].Pubkey == v }))
}

func genPeers(r *verifvc.Rand) []lndclient.Peer {
	var ps []lndclient.Peer
	for i := r.Count(5); i > 0; i-- {
		p := r.Make(lndclient.Peer{}, 2).(lndclient.Peer)
		p.Pubkey = route.NewVertex(r.Key())
		if r.Coin(5) {
			p.Pubkey[32] ^= 1
		}
		ps = append(ps, p)
	}
	return ps
}

func gen_contract_findPeer(r *verifvc.Rand) []interface{} {
	ps := genPeers(r)
	k := r.Key()
	if len(ps) > 0 && r.Bool() {
		ps[r.Intn(len(ps))].Pubkey = route.NewVertex(k)
	}
	return []interface{}{k, ps, r.Coin(6)}
}

// contract_multiHopPath: every hop of the route lnd finds, nothing if it finds
// none.
//@ contract C22 multiHopPath queryRoutesRequest
func contract_multiHopPath(peer *btcec.PublicKey) {
	verifvc.Requires(peer != nil)
	e := &envLnd{}
	path, err := multiHopPath(context.Background(), e, peer)
	v := route.NewVertex(peer)
	verifvc.Ensures("one query", len(e.queries) == 1)
	q := e.queries[0]
	verifvc.Ensures("for the peer", q.PubKey == v)
	verifvc.Ensures("over any channel", q.AmtMsat == 1000 && !q.UseMissionControl && q.FeeLimitMsat >= 1<<60)
	verifvc.Ensures("no connection is made", len(e.connects) == 0 && len(e.sent) == 0)
	want, werr := specPath(v)
	verifvc.Ensures("fails exactly when there is no usable answer", (err != nil) == (werr != nil))
	verifvc.Ensures("every hop", verifvc.Eq(path, want))
}

// specPath is the path to a node: nothing if there is none.
func specPath(v route.Vertex) ([]*btcec.PublicKey, error) {
	if err := verifvc.Fails("query routes", v); err != nil {
		if err == lndclient.ErrNoRouteFound {
			return nil, nil
		}
		return nil, err
	}
	var path []*btcec.PublicKey
	for _, h := range specRoute(v) {
		if h.PubKey == nil {
			return nil, ErrNilPubkeyInRoute
		}
		k, err := btcec.ParsePubKey(h.PubKey[:])
		if err != nil {
			return nil, err
		}
		path = append(path, k)
	}
	return path, nil
}

// specConnect is what connecting to a peer has to do.
func specConnect(e *envLnd, peer route.Vertex, attempts int, cancelled bool) (ok, lookup, connect bool, lists int) {
	seen := func(n int) bool {
		if e.connected >= 0 && n >= e.connected {
			return true
		}
		return verifvc.Exists(0, len(e.others), func(i int) bool { return e.others[i].Pubkey == peer })
	}
	if e.listFails == 0 {
		return false, false, false, 1
	}
	if seen(0) {
		return true, false, false, 1
	}
	if verifvc.Fails("node info", peer) != nil {
		return false, true, false, 1
	}
	a := specAddresses(peer)
	if len(a) == 0 {
		return false, true, false, 1
	}
	if verifvc.Fails("connect", peer, a[0]) != nil {
		return false, true, true, 1
	}
	for i := 1; i <= attempts; i++ {
		if e.listFails == i {
			return false, true, true, i + 1
		}
		if seen(i) {
			return true, true, true, i + 1
		}
		if cancelled {
			return false, true, true, i + 1
		}
	}
	return false, true, true, attempts + 1
}

// contract_lookupAndConnect: an existing connection is used, otherwise one is
// made to the first address and waited for.
//@ contract C22 (*Messenger).lookupAndConnect (*Messenger).findPeer
func contract_lookupAndConnect(peer *btcec.PublicKey, others []lndclient.Peer, connected, listFails, attempts int, cancelled bool) {
	verifvc.Requires(peer != nil && attempts < 1000000)
	v := route.NewVertex(peer)
	e := &envLnd{others: others, connected: connected, listFails: listFails, peer: v}
	m := &Messenger{lnd: e, lookupPeerAttempts: attempts, lookupPeerBackoff: 1}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if cancelled {
		cancel()
		m.lookupPeerBackoff = time.Hour
	}
	err := m.lookupAndConnect(ctx, peer)
	ok, lookup, connect, lists := specConnect(e, v, attempts, cancelled)
	verifvc.Ensures("connected exactly if seen in time", (err == nil) == ok)
	verifvc.Ensures("checks made", e.lists == lists)
	verifvc.Ensures("looked up only when not connected", (len(e.lookups) != 0) == lookup)
	if !connect {
		verifvc.Ensures("no needless connection", len(e.connects) == 0)
		return
	}
	verifvc.Ensures("one connection", len(e.connects) == 1)
	c := e.connects[0]
	verifvc.Ensures("permanent, to the peer's first address", c.peer == v && c.host == specAddresses(v)[0] && c.permanent)
}

func gen_contract_lookupAndConnect(r *verifvc.Rand) []interface{} {
	verifvc.FailOneIn([]int{4, 1000}[r.Intn(2)])
	connected := r.Intn(8) - 1
	fails := -1
	if r.Coin(4) {
		fails = r.Intn(6)
	}
	return []interface{}{r.Key(), genPeers(r), connected, fails, r.Intn(7), r.Coin(5)}
}

// follow peels a message node by node and returns what its last node gets, nil
// if a node along the way can't tell where it goes next.
func follow(node *btcec.PublicKey, data []byte) (nodes []*btcec.PublicKey, last *lnwire.OnionMessagePayload) {
	point, blob, ok := decodeOnion(data)
	if !ok {
		return nil, nil
	}
	for i := 0; i < 40; i++ {
		nodes = append(nodes, node)
		key := ecdhOf(node)
		pkt, err := decodePacket(blob)
		if err != nil {
			return nodes, nil
		}
		rt := newRouter(key)
		p, err := rt.ProcessOnionPacket(pkt, nil, 0, point)
		rt.Stop()
		if err != nil {
			return nodes, nil
		}
		pl, err := lnwire.DecodeOnionMessagePayload(p.Payload.Payload)
		if err != nil {
			return nodes, nil
		}
		if p.Action == sphinx.ExitNode {
			return nodes, pl
		}
		plain, err := sphinx.DecryptBlindedData(key, point, pl.EncryptedData)
		if err != nil {
			return nodes, nil
		}
		d, err := lnwire.DecodeBlindedRouteData(plain)
		if err != nil || d.NextNodeID == nil {
			return nodes, nil
		}
		point, err = sphinx.NextEphemeral(key, point)
		if err != nil {
			return nodes, nil
		}
		if d.NextBlindingOverride != nil {
			point = d.NextBlindingOverride
		}
		node = d.NextNodeID
		blob, err = encodePacket(p.NextPacket)
		if err != nil {
			return nodes, nil
		}
	}
	return nodes, nil
}

// contract_SendMessage: at most one message, along the path found or over a
// connection that was asked for, that its destination can read.
//@ bounded C22 C16 (*Messenger).SendMessage (*Messenger).lookupAndConnect multiHopPath n=800
func contract_SendMessage(peer *btcec.PublicKey, theirs []*btcec.PublicKey, destKey *btcec.PrivateKey, reply *lnwire.ReplyPath, finals []*lnwire.FinalHopPayload, direct bool, others []lndclient.Peer, connected, attempts int) {
	verifvc.Requires((peer == nil) != (len(theirs) == 0))
	e := &envLnd{listFails: -1}
	m := &Messenger{lnd: e, lookupPeerAttempts: attempts, lookupPeerBackoff: 1}
	checkSend(m, e, peer, theirs, destKey, reply, finals, direct, others, connected, attempts)
}

// checkSend sends one message with m, whose node is e, and checks it.
func checkSend(m *Messenger, e *envLnd, peer *btcec.PublicKey, theirs []*btcec.PublicKey, destKey *btcec.PrivateKey, reply *lnwire.ReplyPath, finals []*lnwire.FinalHopPayload, direct bool, others []lndclient.Peer, connected, attempts int) {
	var dest *lnwire.ReplyPath
	target := peer
	if peer == nil {
		target = theirs[0]
		var plain []*sphinx.BlindedPathHop
		for i, k := range theirs {
			h := &sphinx.BlindedPathHop{NodePub: k}
			if i+1 < len(theirs) {
				h.Payload = verifvc.TLV(4, theirs[i+1].SerializeCompressed())
			}
			plain = append(plain, h)
		}
		bp, err := sphinx.BuildBlindedPath(destKey, plain)
		if err != nil {
			panic(err)
		}
		dest = &lnwire.ReplyPath{FirstNodeID: theirs[0], BlindingPoint: bp.BlindingPoint}
		for i := range bp.BlindedHops {
			dest.Hops = append(dest.Hops, &lnwire.BlindedHop{BlindedNodeID: bp.BlindedHops[i], EncryptedData: bp.EncryptedData[i]})
		}
	}
	v := route.NewVertex(target)
	e.sent, e.connects, e.lookups, e.queries, e.lists = nil, nil, nil, nil, 0
	e.others, e.connected, e.peer = others, connected, v
	err := m.SendMessage(context.Background(), NewSendMessageRequest(peer, dest, reply, finals, direct))
	verifvc.Ensures("at most one message", len(e.sent) <= 1)
	var all []*btcec.PublicKey
	if direct {
		ok, _, connect, _ := specConnect(e, v, attempts, false)
		verifvc.Ensures("connects only when needed", (len(e.connects) != 0) == connect)
		verifvc.Ensures("no path is looked for", len(e.queries) == 0)
		if !ok {
			verifvc.Ensures("nothing sent when not connected", err != nil && len(e.sent) == 0)
			return
		}
		all = []*btcec.PublicKey{target}
	} else {
		verifvc.Ensures("never connects", len(e.connects) == 0)
		path, perr := specPath(v)
		if perr != nil {
			verifvc.Ensures("nothing sent when the path lookup fails", err != nil && len(e.sent) == 0)
			return
		}
		if len(path) == 0 {
			verifvc.Ensures("no path", verifvc.Is(err, ErrNoPath) && len(e.sent) == 0)
			return
		}
		all = path
		if dest != nil && !path[len(path)-1].IsEqual(target) {
			verifvc.Ensures("path does not reach the introduction node", err != nil && len(e.sent) == 0)
			return
		}
	}
	if dest != nil {
		all = append(append([]*btcec.PublicKey{}, all[:len(all)-1]...), theirs...)
	}
	if err != nil && len(all) > 8 {
		verifvc.Ensures("nothing sent when the path may be too long for an onion", len(e.sent) == 0)
		return
	}
	verifvc.Ensures("sent", len(e.sent) == 1)
	verifvc.Ensures("as an onion message to the first node", e.sent[0].MsgType == 513 && e.sent[0].Peer == route.NewVertex(all[0]))
	serr := verifvc.Fails("send", e.sent[0].Peer)
	verifvc.Ensures("fails when sending does", (err != nil) == (serr != nil))
	nodes, pl := follow(all[0], e.sent[0].Data)
	verifvc.Ensures("every hop of the path", verifvc.Eq(nodes, all))
	verifvc.Ensures("delivered", pl != nil)
	verifvc.Ensures("final payloads delivered", verifvc.Eq(pl.FinalHopPayloads, finals))
	verifvc.Ensures("reply path delivered", verifvc.Eq(pl.ReplyPath, reply))
}

func gen_contract_SendMessage(r *verifvc.Rand) []interface{} {
	verifvc.FailOneIn([]int{4, 40}[r.Intn(2)])
	var peer *btcec.PublicKey
	var theirs []*btcec.PublicKey
	if r.Bool() {
		peer = r.Key()
	} else {
		for i := r.Intn(3); i >= 0; i-- {
			theirs = append(theirs, r.Key())
		}
	}
	return []interface{}{peer, theirs, r.Priv(), genReply(r), genFinals(r), r.Bool(), genPeers(r), r.Intn(6) - 1, r.Intn(5)}
}
