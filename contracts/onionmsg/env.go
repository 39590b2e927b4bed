package onionmsg

import (
	"context"
	"fmt"
	"io"
	"sync"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/verifvc"
	"github.com/lightninglabs/lndclient"
	sphinx "github.com/lightningnetwork/lightning-onion"
	"github.com/lightningnetwork/lnd/keychain"
	"github.com/lightningnetwork/lnd/routing/route"
	"github.com/lightningnetwork/lnd/tlv"
)

// envLnd is any lnd node. What it is asked to do is recorded.
type envLnd struct {
	mu        sync.Mutex
	sent      []lndclient.CustomMessage
	connects  []envConnect
	lookups   []route.Vertex
	queries   []lndclient.QueryRoutesRequest
	lists     int
	connected int // number of ListPeers after which the peer is seen, -1 for never
	listFails int // ListPeers call that fails, -1 for none
	peer      route.Vertex
	others    []lndclient.Peer
	subscribe func() (<-chan lndclient.CustomMessage, <-chan error, error)
}

type envConnect struct {
	peer      route.Vertex
	host      string
	permanent bool
}

func (e *envLnd) SendCustomMessage(ctx context.Context, msg lndclient.CustomMessage) error {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.sent = append(e.sent, msg)
	return verifvc.Fails("send", msg.Peer)
}

func (e *envLnd) SubscribeCustomMessages(ctx context.Context) (<-chan lndclient.CustomMessage, <-chan error, error) {
	return e.subscribe()
}

func (e *envLnd) GetNodeInfo(ctx context.Context, key route.Vertex, channels bool) (*lndclient.NodeInfo, error) {
	e.mu.Lock()
	e.lookups = append(e.lookups, key)
	e.mu.Unlock()
	if err := verifvc.Fails("node info", key); err != nil {
		return nil, err
	}
	return &lndclient.NodeInfo{Node: &lndclient.Node{PubKey: key, Addresses: specAddresses(key)}}, nil
}

func specAddresses(key route.Vertex) []string {
	var a []string
	verifvc.Fn(&a, "addresses", key)
	return a
}

func (e *envLnd) ListPeers(ctx context.Context) ([]lndclient.Peer, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	n := e.lists
	e.lists++
	if n == e.listFails {
		return nil, errList
	}
	peers := append([]lndclient.Peer{}, e.others...)
	if e.connected >= 0 && n >= e.connected {
		p := lndclient.Peer{Pubkey: e.peer}
		verifvc.Fn(&p.Inbound, "inbound", e.peer)
		verifvc.Fn(&p.Address, "address", e.peer)
		peers = append(peers, p)
	}
	return peers, nil
}

var errList = fmt.Errorf("can't list peers")

func (e *envLnd) Connect(ctx context.Context, peer route.Vertex, host string, permanent bool) error {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.connects = append(e.connects, envConnect{peer, host, permanent})
	return verifvc.Fails("connect", peer, host)
}

func (e *envLnd) GetInfo(ctx context.Context) (*lndclient.Info, error) {
	if err := verifvc.Fails("get info"); err != nil {
		return nil, err
	}
	var i lndclient.Info
	verifvc.Fn(&i, "get info")
	return &i, nil
}

func (e *envLnd) QueryRoutes(ctx context.Context, req lndclient.QueryRoutesRequest) (*lndclient.QueryRoutesResponse, error) {
	e.mu.Lock()
	e.queries = append(e.queries, req)
	e.mu.Unlock()
	if err := verifvc.Fails("query routes", req.PubKey); err != nil {
		return nil, err
	}
	resp := &lndclient.QueryRoutesResponse{}
	verifvc.Fn(&resp.TotalAmtMsat, "route amount", req.PubKey)
	verifvc.Fn(&resp.TotalFeesMsat, "route fees", req.PubKey)
	verifvc.Fn(&resp.TotalTimeLock, "route time lock", req.PubKey)
	resp.Hops = specRoute(req.PubKey)
	return resp, nil
}

func specRoute(to route.Vertex) []*lndclient.Hop {
	var hops []*lndclient.Hop
	verifvc.Fn(&hops, "query routes", to)
	// lndclient makes every hop of the routes it returns.
	verifvc.Requires(verifvc.Forall(0, len(hops), func(i int) bool { return hops[i] != nil }))
	return hops
}

var _ = verifvc.Errors(lndclient.ErrNoRouteFound, lndclient.ErrNoRouteFound, ErrShuttingDown, ErrLNDShutdown, ErrBadMessage, ErrBadOnionBlob, context.Canceled, context.DeadlineExceeded, io.EOF)

var _ = verifvc.Register([]*lndclient.Hop{}, func(r *verifvc.Rand) interface{} {
	var hops []*lndclient.Hop
	n := r.Intn(5)
	if r.Coin(30) {
		n = r.Intn(40)
	}
	for i := n; i > 0; i-- {
		v := route.NewVertex(r.Key())
		h := r.Make(&lndclient.Hop{}, 1).(*lndclient.Hop)
		if h == nil {
			h = &lndclient.Hop{}
		}
		h.PubKey = &v
		switch {
		case len(hops) > 0 && r.Coin(10):
			h.PubKey = hops[len(hops)-1].PubKey
		case r.Coin(40):
			h.PubKey = nil
		case r.Coin(40):
			v[0] = 9
		}
		hops = append(hops, h)
	}
	return hops
})

// envSigner records what it is asked.
type envSigner struct {
	key *btcec.PublicKey
	loc *keychain.KeyLocator
	n   int
}

func (e *envSigner) DeriveSharedKey(ctx context.Context, key *btcec.PublicKey, loc *keychain.KeyLocator) ([32]byte, error) {
	e.key, e.loc = key, loc
	e.n++
	var out [32]byte
	verifvc.Fn(&out, "shared key", key)
	return out, verifvc.Fails("shared key", key)
}

// contract_ECDH: lnd derives the secret with the node's identity key.
//@ contract C29 (*NodeECDH).ECDH (*NodeECDH).PubKey
func contract_ECDH(key, ours *btcec.PublicKey) {
	verifvc.Requires(key != nil)
	s := &envSigner{}
	n := &NodeECDH{signer: s, pubkey: ours, timeout: defaultTimeout}
	got, err := n.ECDH(key)
	var want [32]byte
	verifvc.Fn(&want, "shared key", key)
	verifvc.Ensures("derived once", s.n == 1)
	verifvc.Ensures("from the given key", s.key == key)
	verifvc.Ensures("with the node's identity key", s.loc != nil && s.loc.Family == 6 && s.loc.Index == 0)
	verifvc.Ensures("result unchanged", verifvc.Eq(got, want))
	verifvc.Ensures("error unchanged", err == verifvc.Fails("shared key", key))
	verifvc.Ensures("public key unchanged", n.PubKey() == ours)
}

// contract_ECDHTwice: each secret is the one of its key, whatever was asked
// before.
//@ contract C29 (*NodeECDH).ECDH
func contract_ECDHTwice(first, second, ours *btcec.PublicKey) {
	verifvc.Requires(first != nil && second != nil)
	s := &envSigner{}
	n := &NodeECDH{signer: s, pubkey: ours, timeout: defaultTimeout}
	n.ECDH(first)
	got, err := n.ECDH(second)
	var want [32]byte
	verifvc.Fn(&want, "shared key", second)
	verifvc.Ensures("the second key's", verifvc.Eq(got, want))
	verifvc.Ensures("the second key's error", err == verifvc.Fails("shared key", second))
}

func gen_contract_ECDHTwice(r *verifvc.Rand) []interface{} {
	k := r.Key()
	b := k.SerializeCompressed()
	if r.Coin(2) {
		b[0] ^= 1
	}
	k2, err := btcec.ParsePubKey(b)
	if err != nil {
		panic(err)
	}
	return []interface{}{k, k2, r.Key()}
}

// contract_NewNodeECDH: the public key is the one lnd reports.
//@ contract C29 NewNodeECDH
func contract_NewNodeECDH() {
	s := &envSigner{}
	n, err := NewNodeECDH(&envLnd{}, s)
	if gerr := verifvc.Fails("get info"); gerr != nil {
		verifvc.Ensures("can't be fetched", n == nil && verifvc.Is(err, gerr))
		return
	}
	var i lndclient.Info
	verifvc.Fn(&i, "get info")
	want, perr := btcec.ParsePubKey(i.IdentityPubkey[:])
	if perr != nil {
		verifvc.Ensures("can't be parsed", n == nil && err != nil)
		return
	}
	verifvc.Ensures("created", err == nil && n != nil)
	verifvc.Ensures("lnd's identity key", verifvc.Eq(n.PubKey(), want))
	verifvc.Ensures("uses the signer given", n.signer == LndOnionSigner(s))
}

var _ = verifvc.Register(lndclient.Info{}, func(r *verifvc.Rand) interface{} {
	var i lndclient.Info
	if !r.Coin(5) {
		i.IdentityPubkey = route.NewVertex(r.Key())
	}
	return i
})

func decodeOnion(data []byte) (*btcec.PublicKey, []byte, bool) {
	if len(data) < 35 {
		return nil, nil, false
	}
	k, err := btcec.ParsePubKey(data[:33])
	if err != nil {
		return nil, nil, false
	}
	n := int(data[33])<<8 | int(data[34])
	if len(data) < 35+n {
		return nil, nil, false
	}
	return k, data[35 : 35+n], true
}

func encodeOnion(k *btcec.PublicKey, blob []byte) []byte {
	b := append([]byte{}, k.SerializeCompressed()...)
	b = append(b, byte(len(blob)>>8), byte(len(blob)))
	return append(b, blob...)
}

func tlvType(n uint64) tlv.Type { return tlv.Type(n) }

func genReply(r *verifvc.Rand) *lnwire.ReplyPath {
	if r.Bool() {
		return nil
	}
	p := &lnwire.ReplyPath{FirstNodeID: r.Key(), BlindingPoint: r.Key()}
	for i := r.Intn(3); i >= 0; i-- {
		p.Hops = append(p.Hops, &lnwire.BlindedHop{BlindedNodeID: r.Key(), EncryptedData: r.Bytes(60)})
	}
	return p
}

func genFinals(r *verifvc.Rand) []*lnwire.FinalHopPayload {
	var fs []*lnwire.FinalHopPayload
	t := uint64(64)
	for i := r.Len(5); i > 0; i-- {
		fs = append(fs, &lnwire.FinalHopPayload{TLVType: tlvType(t), Value: r.Bytes(40)})
		t += 1 + uint64(r.Intn(3))
	}
	return fs
}

func ecdhOf(k *btcec.PublicKey) sphinx.SingleKeyECDH {
	return &sphinx.PrivKeyECDH{PrivKey: verifvc.PrivOf(k)}
}
