package rpcserver

import (
	"bytes"
	"context"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/chaincfg"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/verifvc"
	"github.com/lightninglabs/lndclient"
	sphinx "github.com/lightningnetwork/lightning-onion"
	"github.com/lightningnetwork/lnd/tlv"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// envSteps records what a server does to start and stop.
type envSteps struct {
	s        *Server
	ecdhErr  error
	startErr error
	stopErr  error
	made     int
	started  int
	stopped  int
	msgr     *onionmsg.Messenger
	shutdown func(error)
}

var ghostSteps *envSteps

//@ summary github.com/carlakc/boltnd/onionmsg.NewNodeECDH
func sumNewECDH(client onionmsg.LndOnionMsg, signer lndclient.SignerClient) (*onionmsg.NodeECDH, error) {
	if ghostSteps.ecdhErr != nil {
		return nil, ghostSteps.ecdhErr
	}
	return new(onionmsg.NodeECDH), nil
}

//@ summary (*github.com/carlakc/boltnd/onionmsg.NodeECDH).PubKey
func sumNodeKey(n *onionmsg.NodeECDH) *btcec.PublicKey { return new(btcec.PublicKey) }

//@ summary github.com/carlakc/boltnd/onionmsg.NewOnionMessenger
func sumNewMessenger(params *chaincfg.Params, lnd onionmsg.LndOnionMsg, key sphinx.SingleKeyECDH, shutdown func(error)) *onionmsg.Messenger {
	ghostSteps.made++
	ghostSteps.shutdown = shutdown
	return ghostSteps.msgr
}

//@ summary (*github.com/carlakc/boltnd/onionmsg.Messenger).Start
func sumMessengerStart(m *onionmsg.Messenger) error {
	g := ghostSteps
	verifvc.Ensures("not ready before the messenger has started", !verifvc.Closed(g.s.ready))
	verifvc.Ensures("starts the messenger made", m == g.msgr)
	g.started++
	return g.startErr
}

//@ summary (*github.com/carlakc/boltnd/onionmsg.Messenger).Stop
func sumMessengerStop(m *onionmsg.Messenger) error {
	g := ghostSteps
	verifvc.Ensures("calls are told to end first", verifvc.Closed(g.s.quit))
	g.stopped++
	return g.stopErr
}

// contract_serverSteps: the server is ready once everything has started, never
// if something fails, and starts at most once.
//@ deductive C25 C27 (*Server).Start NewServer
//@ uses sumNewECDH sumNodeKey sumNewMessenger sumMessengerStart
func contract_serverSteps(lnd *lndclient.LndServices, started int32, ecdhErr, startErr error) {
	verifvc.Requires(lnd != nil)
	told := 0
	s, err := NewServer(func(error) { told++ })
	verifvc.Ensures("new server", err == nil && s != nil && !verifvc.Closed(s.ready) && !verifvc.Closed(s.quit))
	s.started = started
	g := &envSteps{s: s, ecdhErr: ecdhErr, startErr: startErr, msgr: new(onionmsg.Messenger)}
	ghostSteps = g
	err = s.Start(lnd)
	if started != 0 {
		verifvc.Ensures("already started", err != nil && g.made == 0 && g.started == 0 && !verifvc.Closed(s.ready))
		return
	}
	verifvc.Ensures("can't be started again", s.Start(lnd) != nil && g.started <= 1)
	if ecdhErr != nil {
		verifvc.Ensures("no node key", verifvc.Is(err, ecdhErr) && g.started == 0 && !verifvc.Closed(s.ready))
		return
	}
	verifvc.Ensures("messenger started once", g.made == 1 && g.started == 1)
	g.shutdown(startErr)
	verifvc.Ensures("the messenger can request a shutdown", told == 1)
	if startErr != nil {
		verifvc.Ensures("messenger can't start", verifvc.Is(err, startErr) && !verifvc.Closed(s.ready))
		return
	}
	verifvc.Ensures("ready", err == nil && verifvc.Closed(s.ready) && !verifvc.Closed(s.quit))
	verifvc.Ensures("with what calls need", s.onionMsgr != nil && s.routeGenerator != nil)
}

// contract_serverStopSteps: calls are told to end, then the messenger is
// stopped, at most once.
//@ deductive C27 (*Server).Stop
//@ uses sumMessengerStop
func contract_serverStopSteps(stopped int32, running bool, stopErr error) {
	s := &Server{stopped: stopped, ready: make(chan struct{}), quit: make(chan struct{})}
	g := &envSteps{s: s, stopErr: stopErr, msgr: new(onionmsg.Messenger)}
	ghostSteps = g
	if running {
		s.onionMsgr = g.msgr
	}
	err := s.Stop()
	if stopped != 0 {
		verifvc.Ensures("already stopped", err != nil && g.stopped == 0 && !verifvc.Closed(s.quit))
		return
	}
	verifvc.Ensures("calls are told to end", verifvc.Closed(s.quit))
	verifvc.Ensures("can't be stopped again", s.Stop() != nil && g.stopped <= 1)
	if !running {
		verifvc.Ensures("nothing else to stop", err == nil && g.stopped == 0)
		return
	}
	verifvc.Ensures("messenger stopped", g.stopped == 1 && (stopErr == nil) == (err == nil))
}

// sumParsePath stands for the parsing of a path; see contract_parseReplyPath.
//@ summary github.com/carlakc/boltnd/rpcserver.parseReplyPath
func sumParsePath(p *offersrpc.BlindedPath) (*lnwire.ReplyPath, error) {
	if p == nil {
		return nil, nil
	}
	if verifvc.Fails("badpath", p) != nil {
		return nil, status.Errorf(codes.InvalidArgument, "path")
	}
	r := new(lnwire.ReplyPath)
	verifvc.Fn(r, "path", p)
	return r, nil
}

// contract_parseSendSteps: where to send to, and what with.
//@ deductive C23 parseSendOnionMessageRequest
//@ uses sumParsePath
func contract_parseSendSteps(req *offersrpc.SendOnionMessageRequest) {
	verifvc.Requires(req != nil)
	got, err := parseSendOnionMessageRequest(req)
	_, kerr := btcec.ParsePubKey(req.Pubkey)
	byKey, byPath := len(req.Pubkey) != 0, req.BlindedDestination != nil
	ok := byKey != byPath && (!byKey || kerr == nil)
	if byPath {
		ok = ok && verifvc.Fails("badpath", req.BlindedDestination) == nil
	}
	if req.ReplyPath != nil {
		ok = ok && verifvc.Fails("badpath", req.ReplyPath) == nil
	}
	if !ok {
		verifvc.Ensures("rejected as invalid", err != nil && verifvc.Code(err) == codes.InvalidArgument)
		verifvc.Ensures("no request with an error", got == nil)
		return
	}
	if err != nil {
		verifvc.Ensures("an invalid argument", verifvc.Code(err) == codes.InvalidArgument && got == nil)
		return
	}
	verifvc.Ensures("the peer given", byKey == (got.Peer != nil))
	verifvc.Ensures("direct connect as given", got.DirectConnect == req.DirectConnect)
	verifvc.Ensures("to a place", byKey == (got.BlindedDestination == nil))
	verifvc.Ensures("reply path if given", (req.ReplyPath == nil) == (got.ReplyPath == nil))
}

// contract_parseSendTwo: both of two payloads are sent, whichever comes first.
//@ deductive C23 parseSendOnionMessageRequest
//@ uses sumParsePath
func contract_parseSendTwo(t1, t2 uint64, v1, v2, pubkey []byte) {
	verifvc.Requires(t1 < t2 && len(pubkey) > 0)
	_, kerr := btcec.ParsePubKey(pubkey)
	verifvc.Requires(kerr == nil)
	req := &offersrpc.SendOnionMessageRequest{Pubkey: pubkey, FinalPayloads: map[uint64][]byte{t1: v1, t2: v2}}
	got, err := parseSendOnionMessageRequest(req)
	if t1 < 64 {
		verifvc.Ensures("type out of range", got == nil && err != nil && verifvc.Code(err) == codes.InvalidArgument)
		return
	}
	verifvc.Ensures("accepted", err == nil && got != nil && len(got.FinalPayloads) == 2)
	a, b := got.FinalPayloads[0], got.FinalPayloads[1]
	if a.TLVType > b.TLVType {
		a, b = b, a
	}
	verifvc.Ensures("the first", uint64(a.TLVType) == t1 && bytes.Equal(a.Value, v1))
	verifvc.Ensures("the second", uint64(b.TLVType) == t2 && bytes.Equal(b.Value, v2))
}

// sumParseSend stands for the parsing of a request; see contract_parseSend.
//@ summary github.com/carlakc/boltnd/rpcserver.parseSendOnionMessageRequest
func sumParseSend(req *offersrpc.SendOnionMessageRequest) (*onionmsg.SendMessageRequest, error) {
	ghostSend.parsed = append(ghostSend.parsed, req)
	return ghostSend.req, ghostSend.parseErr
}

type envSend struct {
	parsed   []*offersrpc.SendOnionMessageRequest
	req      *onionmsg.SendMessageRequest
	parseErr error
}

var ghostSend *envSend

// contract_sendSteps: what the request says is sent, once, and how that fails
// is told apart.
//@ deductive C24 C23 C25 (*Server).SendOnionMessage (*Server).waitForReady
//@ uses sumParseSend
func contract_sendSteps(req *offersrpc.SendOnionMessageRequest, want *onionmsg.SendMessageRequest, parseErr, fails error) {
	verifvc.Requires(req != nil && want != nil)
	g := &envSend{req: want, parseErr: parseErr}
	ghostSend = g
	m := &envMessenger{err: fails}
	s := readyServer(m, &envRoutes{})
	resp, err := s.SendOnionMessage(context.Background(), req)
	verifvc.Ensures("the request is parsed", len(g.parsed) == 1 && g.parsed[0] == req)
	if parseErr != nil {
		verifvc.Ensures("invalid request", err == parseErr && resp == nil)
		verifvc.Ensures("nothing sent if invalid", m.calls == 0)
		return
	}
	verifvc.Ensures("sent once, as parsed", m.calls == 1 && m.sent[0] == want)
	switch {
	case fails == nil:
		verifvc.Ensures("success", err == nil && resp != nil)
	case verifvc.Is(fails, onionmsg.ErrNoPath):
		verifvc.Ensures("no path", resp == nil && err != nil && verifvc.Code(err) == codes.NotFound)
	default:
		verifvc.Ensures("failure", resp == nil && err != nil && verifvc.Code(err) == codes.Internal)
	}
}

// sumSubscription stands for a subscription; see contract_subscriptionQueue.
//@ summary github.com/carlakc/boltnd/rpcserver.handleSubscribeOnionPayload
func sumSubscription(ctx context.Context, typ tlv.Type, incoming chan onionPayloadResponse, quit chan struct{},
	messenger onionmsg.OnionMessenger, send func(*offersrpc.SubscribeOnionPayloadResponse) error) error {
	g := ghostSub
	g.n++
	g.typ = typ
	verifvc.Ensures("for the messenger", messenger == g.s.onionMsgr)
	verifvc.Ensures("ends with the server", quit == g.s.quit)
	verifvc.Ensures("ends with the client", ctx == g.stream.ctx)
	verifvc.Ensures("room for a payload", cap(incoming) > 0 && len(incoming) == 0)
	r := new(offersrpc.SubscribeOnionPayloadResponse)
	verifvc.Ensures("sends to the client", send(r) == g.stream.err && len(g.stream.sent) == 1 && g.stream.sent[0] == r)
	return g.err
}

type envSubSteps struct {
	s      *Server
	stream *envSubStream
	n      int
	typ    tlv.Type
	err    error
}

type envSubStream struct {
	grpc.ServerStream
	ctx  context.Context
	sent []*offersrpc.SubscribeOnionPayloadResponse
	err  error
}

func (e *envSubStream) Context() context.Context { return e.ctx }

func (e *envSubStream) Send(r *offersrpc.SubscribeOnionPayloadResponse) error {
	e.sent = append(e.sent, r)
	return e.err
}

var ghostSub *envSubSteps

// contract_subscribeSteps: a subscription is for the type asked for, in range,
// once the server is ready, and to the client that asked.
//@ deductive C25 C23 C26 (*Server).SubscribeOnionPayload (*Server).waitForReady parseSubscribeOnionPayloadRequest
//@ uses sumSubscription
func contract_subscribeSteps(req *offersrpc.SubscribeOnionPayloadRequest, ready bool, sendErr, fails error) {
	verifvc.Requires(req != nil)
	ctx, cancel := context.WithCancel(context.Background())
	st := &envSubStream{ctx: ctx, err: sendErr}
	g := &envSubSteps{stream: st, err: fails}
	ghostSub = g
	if !ready {
		cancel()
		g.s = &Server{ready: make(chan struct{}), quit: make(chan struct{}), onionMsgr: &envMessenger{}}
		err := g.s.SubscribeOnionPayload(req, st)
		verifvc.Ensures("unavailable", err != nil && verifvc.Code(err) == codes.Unavailable && g.n == 0)
		return
	}
	g.s = readyServer(&envMessenger{}, &envRoutes{})
	err := g.s.SubscribeOnionPayload(req, st)
	if req.TlvType < 64 {
		verifvc.Ensures("invalid", err != nil && verifvc.Code(err) == codes.InvalidArgument && g.n == 0)
		return
	}
	verifvc.Ensures("subscribed once, to its type", g.n == 1 && uint64(g.typ) == req.TlvType && err == fails)
}
