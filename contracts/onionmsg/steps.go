package onionmsg

import (
	"context"
	"io"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/routes"
	"github.com/carlakc/boltnd/verifvc"
	"github.com/lightninglabs/lndclient"
	sphinx "github.com/lightningnetwork/lightning-onion"
	"github.com/lightningnetwork/lnd/routing/route"
)

// envProcess is what the layers of an onion message hold.
type envProcess struct {
	router    *sphinx.Router
	data      []byte
	blob      []byte
	blinding  *btcec.PublicKey
	msgErr    error
	pktErr    error
	routerErr error
	processed *sphinx.ProcessedPacket
	pkt       *sphinx.OnionPacket
	n         int
}

var ghostProcess *envProcess

func readAll(r io.Reader) []byte {
	b, err := io.ReadAll(r)
	if err != nil {
		panic(err)
	}
	return b
}

//@ summary (*github.com/carlakc/boltnd/lnwire.OnionMessage).Decode
func sumDecodeMsg(m *lnwire.OnionMessage, r io.Reader, v uint32) error {
	g := ghostProcess
	verifvc.Ensures("decodes the message", verifvc.Eq(readAll(r), g.data))
	if g.msgErr != nil {
		return g.msgErr
	}
	m.BlindingPoint = g.blinding
	m.OnionBlob = g.blob
	return nil
}

//@ summary (*github.com/lightningnetwork/lightning-onion.OnionPacket).Decode
func sumDecodePkt(p *sphinx.OnionPacket, r io.Reader) error {
	g := ghostProcess
	verifvc.Ensures("decodes the message's onion", verifvc.Eq(readAll(r), g.blob))
	if g.pktErr != nil {
		return g.pktErr
	}
	g.pkt = p
	return nil
}

//@ summary (*github.com/lightningnetwork/lightning-onion.Router).ProcessOnionPacket
func sumProcess(r *sphinx.Router, p *sphinx.OnionPacket, assoc []byte, cltv uint32, blinding *btcec.PublicKey) (*sphinx.ProcessedPacket, error) {
	g := ghostProcess
	g.n++
	verifvc.Ensures("with the node's router", r == g.router)
	verifvc.Ensures("the packet decoded", p == g.pkt)
	verifvc.Ensures("no associated data", len(assoc) == 0)
	verifvc.Ensures("with the blinding point of the message", blinding == g.blinding)
	if g.routerErr != nil {
		return nil, g.routerErr
	}
	return g.processed, nil
}

// contract_processSteps: the onion of the message is peeled with the blinding
// point of the message.
//@ deductive C18 (*Messenger).processOnion
//@ uses sumDecodeMsg sumDecodePkt sumProcess
func contract_processSteps(data, blob []byte, blinding *btcec.PublicKey, msgErr, pktErr, routerErr error, processed *sphinx.ProcessedPacket) {
	g := &envProcess{router: new(sphinx.Router), data: data, blob: blob, blinding: blinding, msgErr: msgErr, pktErr: pktErr, routerErr: routerErr, processed: processed}
	ghostProcess = g
	m := &Messenger{router: g.router}
	k, p, err := m.processOnion(data)
	switch {
	case msgErr != nil:
		verifvc.Ensures("bad message", verifvc.Is(err, ErrBadMessage) && k == nil && p == nil && g.n == 0)
	case pktErr != nil:
		verifvc.Ensures("bad onion", verifvc.Is(err, ErrBadOnionBlob) && k == nil && p == nil && g.n == 0)
	case routerErr != nil:
		verifvc.Ensures("can't be peeled", verifvc.Is(err, routerErr) && k == nil && p == nil && g.n == 1)
	default:
		verifvc.Ensures("peeled once", err == nil && k == blinding && p == processed && g.n == 1)
	}
}

// envBlob is what an encrypted blob holds.
type envBlob struct {
	key        sphinx.SingleKeyECDH
	blinding   *btcec.PublicKey
	sealed     []byte
	plain      []byte
	decryptErr error
	decodeErr  error
	data       *lnwire.BlindedRouteData
	n          int
}

var ghostBlob *envBlob

//@ summary github.com/lightningnetwork/lightning-onion.DecryptBlindedData
func sumDecrypt(key sphinx.SingleKeyECDH, point *btcec.PublicKey, sealed []byte) ([]byte, error) {
	g := ghostBlob
	g.n++
	verifvc.Ensures("with the node's key", key == g.key)
	verifvc.Ensures("with the blinding point", point == g.blinding)
	verifvc.Ensures("the encrypted data", verifvc.Eq(sealed, g.sealed))
	if g.decryptErr != nil {
		return nil, g.decryptErr
	}
	return g.plain, nil
}

//@ summary github.com/carlakc/boltnd/lnwire.DecodeBlindedRouteData
func sumDecodeData(b []byte) (*lnwire.BlindedRouteData, error) {
	g := ghostBlob
	verifvc.Ensures("what was decrypted", verifvc.Eq(b, g.plain))
	if g.decodeErr != nil {
		return nil, g.decodeErr
	}
	return g.data, nil
}

// contract_decryptSteps: the data of a payload is what its blob holds.
//@ deductive C12 decryptBlobFunc
//@ uses sumDecrypt sumDecodeData
func contract_decryptSteps(blinding *btcec.PublicKey, p *lnwire.OnionMessagePayload, plain []byte, decryptErr, decodeErr error, data *lnwire.BlindedRouteData) {
	verifvc.Requires(data != nil)
	key := &envECDH{}
	g := &envBlob{key: key, blinding: blinding, plain: plain, decryptErr: decryptErr, decodeErr: decodeErr, data: data}
	ghostBlob = g
	if p != nil {
		g.sealed = p.EncryptedData
	}
	got, err := decryptBlobFunc(key)(blinding, p)
	switch {
	case p == nil:
		verifvc.Ensures("no payload", got == nil && verifvc.Is(err, ErrNoForwardingPayload) && g.n == 0)
	case len(p.EncryptedData) == 0:
		verifvc.Ensures("no data", got == nil && verifvc.Is(err, ErrNoEncryptedData) && g.n == 0)
	case decryptErr != nil:
		verifvc.Ensures("can't be decrypted", got == nil && verifvc.Is(err, decryptErr) && g.n == 1)
	case decodeErr != nil:
		verifvc.Ensures("can't be decoded", got == nil && verifvc.Is(err, decodeErr) && g.n == 1)
	default:
		verifvc.Ensures("the data in the blob", err == nil && got == data && g.n == 1)
	}
}

// envSend is the world a message is sent in.
type envSend struct {
	*envLnd
	ctx        context.Context
	target     *btcec.PublicKey
	path       []*btcec.PublicKey
	keyErr     error
	pathErr    error
	connectErr error
	routeErr   error
	msgErr     error
	sendErr    error
	paths      int
	connects   int
	made       int
	req        *SendMessageRequest
	first      *btcec.PublicKey
	onion      *lnwire.OnionMessage
	custom     lndclient.CustomMessage
	route      *routes.BlindedRouteRequest
	sent       []lndclient.CustomMessage
}

func (e *envSend) SendCustomMessage(ctx context.Context, msg lndclient.CustomMessage) error {
	verifvc.Ensures("within the call", ctx == e.ctx)
	e.sent = append(e.sent, msg)
	return e.sendErr
}

var ghostSend *envSend

//@ summary github.com/btcsuite/btcd/btcec/v2.NewPrivateKey
func sumKey() (*btcec.PrivateKey, error) {
	if ghostSend.keyErr != nil {
		return nil, ghostSend.keyErr
	}
	return new(btcec.PrivateKey), nil
}

//@ summary github.com/carlakc/boltnd/onionmsg.multiHopPath
func sumPath(ctx context.Context, lnd LndOnionMsg, peer *btcec.PublicKey) ([]*btcec.PublicKey, error) {
	g := ghostSend
	g.paths++
	verifvc.Ensures("a path to the target", ctx == g.ctx && peer == g.target)
	if g.pathErr != nil {
		return nil, g.pathErr
	}
	return g.path, nil
}

//@ summary (*github.com/carlakc/boltnd/onionmsg.Messenger).lookupAndConnect
func sumConnect(m *Messenger, ctx context.Context, peer *btcec.PublicKey) error {
	g := ghostSend
	g.connects++
	verifvc.Ensures("connects to the target", ctx == g.ctx && peer == g.target)
	return g.connectErr
}

//@ summary github.com/carlakc/boltnd/routes.NewBlindedRouteRequest
func sumNewRequest(session, blinding *btcec.PrivateKey, hops []*btcec.PublicKey, reply, dest *lnwire.ReplyPath, finals []*lnwire.FinalHopPayload) *routes.BlindedRouteRequest {
	g := ghostSend
	verifvc.Ensures("fresh keys", session != nil && blinding != nil && session != blinding)
	if g.req.DirectConnect {
		verifvc.Ensures("straight to the target", len(hops) == 1 && hops[0] == g.target)
	} else {
		verifvc.Ensures("along the path found", verifvc.Eq(hops, g.path))
	}
	verifvc.Ensures("what was asked for", reply == g.req.ReplyPath && dest == g.req.BlindedDestination && verifvc.Eq(finals, g.req.FinalPayloads))
	g.made++
	return g.route
}

//@ summary github.com/carlakc/boltnd/routes.CreateBlindedRoute
func sumCreate(r *routes.BlindedRouteRequest) (*routes.BlindedRouteResponse, error) {
	g := ghostSend
	verifvc.Ensures("the route requested", r == g.route)
	if g.routeErr != nil {
		return nil, g.routeErr
	}
	return &routes.BlindedRouteResponse{OnionMessage: g.onion, FirstNode: g.first}, nil
}

//@ summary github.com/carlakc/boltnd/onionmsg.customOnionMessage
func sumCustom(peer *btcec.PublicKey, msg *lnwire.OnionMessage) (*lndclient.CustomMessage, error) {
	g := ghostSend
	verifvc.Ensures("the onion, to the first node", peer == g.first && msg == g.onion)
	if g.msgErr != nil {
		return nil, g.msgErr
	}
	return &g.custom, nil
}

// contract_sendMessageSteps: at most one message, along the path found or over
// a connection that was asked for.
//@ deductive C22 (*Messenger).SendMessage
//@ uses sumKey sumPath sumConnect sumNewRequest sumCreate sumCustom
func contract_sendMessageSteps(req *SendMessageRequest, path []*btcec.PublicKey, keyErr, pathErr, connectErr, routeErr, msgErr, sendErr error, first *btcec.PublicKey, custom lndclient.CustomMessage) {
	verifvc.Requires(req != nil && req.Validate() == nil)
	verifvc.Requires(req.BlindedDestination == nil || req.BlindedDestination.FirstNodeID != nil)
	verifvc.Requires(first != nil && verifvc.Forall(0, len(path), func(i int) bool { return path[i] != nil }))
	g := &envSend{req: req, path: path, keyErr: keyErr, pathErr: pathErr, connectErr: connectErr, routeErr: routeErr, msgErr: msgErr, sendErr: sendErr,
		first: first, custom: custom, onion: new(lnwire.OnionMessage), route: new(routes.BlindedRouteRequest)}
	g.target = req.Peer
	if req.Peer == nil {
		g.target = req.BlindedDestination.FirstNodeID
	}
	ghostSend = g
	g.ctx = context.Background()
	m := &Messenger{lnd: g}
	err := m.SendMessage(g.ctx, req)
	verifvc.Ensures("connects only if asked to", req.DirectConnect || g.connects == 0)
	verifvc.Ensures("looks for a path otherwise", !req.DirectConnect || g.paths == 0)
	verifvc.Ensures("at most one message", len(g.sent) <= 1)
	switch {
	case keyErr != nil:
		verifvc.Ensures("no keys", verifvc.Is(err, keyErr) && len(g.sent) == 0)
	case req.DirectConnect && connectErr != nil:
		verifvc.Ensures("not connected", verifvc.Is(err, connectErr) && len(g.sent) == 0)
	case !req.DirectConnect && pathErr != nil:
		verifvc.Ensures("path lookup fails", verifvc.Is(err, pathErr) && len(g.sent) == 0)
	case !req.DirectConnect && len(path) == 0:
		verifvc.Ensures("no path", verifvc.Is(err, ErrNoPath) && len(g.sent) == 0)
	case routeErr != nil:
		verifvc.Ensures("no route", verifvc.Is(err, routeErr) && len(g.sent) == 0)
	case msgErr != nil:
		verifvc.Ensures("no message", verifvc.Is(err, msgErr) && len(g.sent) == 0)
	default:
		verifvc.Ensures("sent", len(g.sent) == 1 && verifvc.Eq(g.sent[0], custom))
		verifvc.Ensures("one route", g.made == 1)
		verifvc.Ensures("fails when sending does", err == sendErr)
	}
}

// envConnects is what a peer's connection goes through.
type envConnects struct {
	*envLnd
	peer     *btcec.PublicKey
	finds    int
	infoErr  error
	info     *lndclient.NodeInfo
	lookups  int
	conErr   error
	connects []envConnect
}

func (e *envConnects) GetNodeInfo(ctx context.Context, key route.Vertex, channels bool) (*lndclient.NodeInfo, error) {
	verifvc.Ensures("looks the peer up", key == route.NewVertex(e.peer))
	e.lookups++
	if e.infoErr != nil {
		return nil, e.infoErr
	}
	return e.info, nil
}

func (e *envConnects) Connect(ctx context.Context, peer route.Vertex, host string, permanent bool) error {
	e.connects = append(e.connects, envConnect{peer, host, permanent})
	return e.conErr
}

var ghostConnects *envConnects

// seenAt: the peer is listed when it is looked for the i-th time.
//@ spec
func seenAt(i int) bool {
	var b bool
	verifvc.Fn(&b, "seen", i)
	return b
}

//@ summary (*github.com/carlakc/boltnd/onionmsg.Messenger).findPeer
func sumFind(m *Messenger, ctx context.Context, peer *btcec.PublicKey) (bool, error) {
	g := ghostConnects
	verifvc.Ensures("looks for the peer", peer == g.peer)
	i := g.finds
	g.finds++
	if err := verifvc.Fails("list", i); err != nil {
		return false, err
	}
	return seenAt(i), nil
}

// contract_connectSteps: an existing connection is used, otherwise one is made
// to the first address, and waited for.
//@ deductive C22 (*Messenger).lookupAndConnect
//@ uses sumFind
func contract_connectSteps(peer *btcec.PublicKey, info lndclient.NodeInfo, infoErr, conErr error, attempts int, cancelled bool) {
	verifvc.Requires(peer != nil && info.Node != nil && attempts >= 0 && attempts < 1000000)
	g := &envConnects{peer: peer, info: &info, infoErr: infoErr, conErr: conErr}
	ghostConnects = g
	m := &Messenger{lnd: g, lookupPeerAttempts: attempts, lookupPeerBackoff: 1}
	if cancelled {
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		err := m.lookupAndConnect(ctx, peer)
		verifvc.Ensures("gives up when cancelled", err != nil || g.finds >= 1 && seenAt(g.finds-1))
		return
	}
	err := m.lookupAndConnect(context.Background(), peer)
	first := verifvc.Fails("list", 0)
	switch {
	case first != nil:
		verifvc.Ensures("peers can't be listed", verifvc.Is(err, first) && g.finds == 1 && g.lookups == 0 && len(g.connects) == 0)
		return
	case seenAt(0):
		verifvc.Ensures("already connected", err == nil && g.finds == 1 && g.lookups == 0 && len(g.connects) == 0)
		return
	case infoErr != nil:
		verifvc.Ensures("unknown node", verifvc.Is(err, infoErr) && g.finds == 1 && len(g.connects) == 0)
		return
	case len(info.Addresses) == 0:
		verifvc.Ensures("no addresses", verifvc.Is(err, ErrNoAddresses) && g.finds == 1 && len(g.connects) == 0)
		return
	}
	verifvc.Ensures("one connection", len(g.connects) == 1)
	c := g.connects[0]
	verifvc.Ensures("permanent, to the peer's first address", c.peer == route.NewVertex(peer) && c.host == info.Addresses[0] && c.permanent)
	if conErr != nil {
		verifvc.Ensures("can't connect", verifvc.Is(err, conErr) && g.finds == 1)
		return
	}
	n := g.finds - 1
	verifvc.Ensures("waits no longer than it may", n >= 0 && n <= attempts)
	verifvc.Ensures("waits until it is seen", verifvc.Forall(1, n, func(i int) bool { return verifvc.Fails("list", i) == nil && !seenAt(i) }))
	seen := n > 0 && verifvc.Fails("list", n) == nil && seenAt(n)
	verifvc.Ensures("connected exactly if seen", (err == nil) == seen)
	if !seen && (n == 0 || verifvc.Fails("list", n) == nil) {
		verifvc.Ensures("gives up", n == attempts && verifvc.Is(err, ErrNoConnection))
	}
}

// inv_attempts: the peer has been looked for and not been seen so far.
//@ invariant (*Messenger).lookupAndConnect
func inv_attempts(i int) bool {
	g := ghostConnects
	return g == nil || g.finds == i+1 && verifvc.Forall(0, i+1, func(j int) bool { return verifvc.Fails("list", j) == nil && !seenAt(j) })
}
