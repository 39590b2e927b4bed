package rpcserver

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"sync/atomic"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/chaincfg"
	"github.com/btcsuite/btclog"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/verifvc"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/tlv"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// envLightning is any lnd node the server can be started with.
type envLightning struct {
	lndclient.LightningClient
	*envNodeCalls
}

type envNodeCalls struct {
	info  *lndclient.Info
	fails error
	gets  int32
	subs  int32
	msgs  chan lndclient.CustomMessage
	errs  chan error
}

func (e envLightning) GetInfo(ctx context.Context) (*lndclient.Info, error) {
	atomic.AddInt32(&e.gets, 1)
	return e.info, e.fails
}

func (e envLightning) SubscribeCustomMessages(ctx context.Context) (<-chan lndclient.CustomMessage, <-chan error, error) {
	atomic.AddInt32(&e.subs, 1)
	return e.msgs, e.errs, nil
}

type envSigner struct{ lndclient.SignerClient }

// watchLog runs something whenever the messenger logs.
type watchLog struct {
	btclog.Logger
	f func(string)
}

func (w watchLog) Info(v ...interface{}) {
	for _, x := range v {
		if s, ok := x.(string); ok {
			w.f(s)
		}
	}
}

func isReady(s *Server) bool {
	select {
	case <-s.ready:
		return true
	default:
		return false
	}
}

// contract_serverStart: the server is ready once everything has started, and
// never if something fails.
//@ bounded C25 C27 (*Server).Start (*Server).Stop NewServer (*Server).waitForReady n=200
func contract_serverStart(info lndclient.Info, fails error, starts int, stopFirst bool) {
	n := &envNodeCalls{info: &info, fails: fails, msgs: make(chan lndclient.CustomMessage), errs: make(chan error)}
	lnd := &lndclient.LndServices{ChainParams: &chaincfg.RegressionNetParams, Client: envLightning{envNodeCalls: n}, Signer: envSigner{}}
	s, err := NewServer(func(error) {})
	verifvc.Ensures("new server", err == nil)
	verifvc.Ensures("not ready when new", !isReady(s))
	early := false
	onionmsg.UseLogger(watchLog{btclog.Disabled, func(string) { early = early || isReady(s) }})
	ctx, cancel := context.WithCancel(context.Background())
	waited := make(chan error, 1)
	go func() { waited <- s.waitForReady(ctx) }()
	if stopFirst {
		verifvc.Ensures("stops", s.Stop() == nil)
		cancel()
		verifvc.Ensures("never ready", verifvc.Code(<-waited) == codes.Unavailable)
		verifvc.Ensures("stops once", s.Stop() != nil)
		onionmsg.UseLogger(btclog.Disabled)
		return
	}
	// A call that waits closely finds everything in place as soon as it may
	// go on.
	done, set := make(chan struct{}), make(chan bool, 1)
	go func() {
		for {
			select {
			case <-s.ready:
				set <- s.onionMsgr != nil && s.routeGenerator != nil
				return
			default:
			}
			select {
			case <-done:
				set <- true
				return
			default:
			}
		}
	}()
	var mu sync.Mutex
	var wg sync.WaitGroup
	ok, bad := 0, 0
	for i := 0; i < starts; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			err := s.Start(lnd)
			mu.Lock()
			defer mu.Unlock()
			if err == nil {
				ok++
			} else {
				bad++
			}
		}()
	}
	wg.Wait()
	onionmsg.UseLogger(btclog.Disabled)
	close(done)
	verifvc.Ensures("everything is in place when ready", <-set)
	verifvc.Ensures("not ready before everything has started", !early)
	verifvc.Ensures("started at most once", atomic.LoadInt32(&n.gets) == 1)
	_, kerr := btcec.ParsePubKey(info.IdentityPubkey[:])
	if fails != nil || kerr != nil {
		verifvc.Ensures("start fails", ok == 0)
		verifvc.Ensures("not ready", !isReady(s))
		cancel()
		verifvc.Ensures("waiting calls give up", verifvc.Code(<-waited) == codes.Unavailable)
	} else {
		verifvc.Ensures("one start succeeds", ok == 1 && bad == starts-1)
		verifvc.Ensures("ready", isReady(s))
		verifvc.Ensures("waiting calls go on", <-waited == nil)
		verifvc.Ensures("messenger set", s.onionMsgr != nil && s.routeGenerator != nil)
		verifvc.Ensures("messenger started", s.onionMsgr.Start() != nil)
		cancel()
	}
	ok = 0
	for i := 0; i < starts; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if s.Stop() == nil {
				mu.Lock()
				ok++
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	verifvc.Ensures("one stop succeeds", ok == 1)
	select {
	case <-s.quit:
	default:
		verifvc.Ensures("tells calls to stop", false)
	}
	if s.onionMsgr != nil {
		verifvc.Ensures("messenger stopped", s.onionMsgr.Stop() != nil)
	}
	verifvc.Ensures("no restart", s.Start(lnd) != nil)
	verifvc.Ensures("subscribed at most once", atomic.LoadInt32(&n.subs) <= 1)
}

func gen_contract_serverStart(r *verifvc.Rand) []interface{} {
	info := r.Make(lndclient.Info{}, 2).(lndclient.Info)
	info.IdentityPubkey = [33]byte{}
	copy(info.IdentityPubkey[:], r.Key().SerializeCompressed())
	if r.Coin(5) {
		info.IdentityPubkey[0] = byte(r.Intn(256))
	}
	var fails error
	if r.Coin(4) {
		fails = errors.New("can't get info")
	}
	return []interface{}{info, fails, 1 + r.Intn(5), r.Coin(6)}
}

// envSubscriber is a messenger that delivers to the handler it is given, and
// answers nothing else while it does, as the real one.
type envSubscriber struct {
	onionmsg.OnionMessenger
	registerErr, deregisterErr error
	registered                 []tlv.Type
	deregistered               []tlv.Type
	requests                   chan func()
	handler                    onionmsg.OnionMessageHandler
}

func (e *envSubscriber) run(payloads []onionPayloadResponse, quit chan struct{}, results chan<- error) {
	for _, p := range payloads {
		for e.handler == nil {
			select {
			case f := <-e.requests:
				f()
				if e.handler == nil {
					return
				}
			case <-quit:
				return
			}
		}
		// Serve whatever is waiting first, now and then.
		select {
		case f := <-e.requests:
			f()
			if e.handler == nil {
				return
			}
		default:
		}
		results <- e.handler(p.replyPath, nil, p.payload)
	}
	for {
		select {
		case f := <-e.requests:
			f()
			if e.handler == nil {
				return
			}
		case <-quit:
			return
		}
	}
}

func (e *envSubscriber) do(f func()) {
	done := make(chan struct{})
	e.requests <- func() {
		f()
		close(done)
	}
	<-done
}

func (e *envSubscriber) RegisterHandler(t tlv.Type, h onionmsg.OnionMessageHandler) error {
	e.do(func() {
		e.registered = append(e.registered, t)
		if e.registerErr == nil {
			e.handler = h
		}
	})
	return e.registerErr
}

func (e *envSubscriber) DeregisterHandler(t tlv.Type) error {
	e.do(func() {
		e.deregistered = append(e.deregistered, t)
		e.handler = nil
	})
	return e.deregisterErr
}

type subEnd int

const (
	endCancel subEnd = iota
	endQuit
	endSend
	endRegister
	subEnds
)

var errSend = errors.New("can't send")

var sendErrs = []error{errSend, errSend, context.Canceled, context.DeadlineExceeded, io.EOF, status.Error(codes.Canceled, "gone"),
	status.Error(codes.Unavailable, "closing"), ErrShuttingDown, onionmsg.ErrShuttingDown,
	onionmsg.ErrHandlerRegistered, onionmsg.ErrNotStarted, status.Error(codes.AlreadyExists, "there is one"),
	status.Error(codes.NotFound, "no such handler"), io.ErrUnexpectedEOF}

// lateCtx is a context that has run out of time once it is done.
type lateCtx struct{ context.Context }

func (l lateCtx) Err() error {
	if l.Context.Err() != nil {
		return context.DeadlineExceeded
	}
	return nil
}

// contract_subscription runs a subscription to its end.
//@ bounded C26 handleSubscribeOnionPayload composeReplyPath n=400
func contract_subscription(typ uint64, payloads []onionPayloadResponse, end subEnd, after int, buffer int, deregisterFails, late bool, sendErr error) {
	e := &envSubscriber{requests: make(chan func())}
	if end == endRegister {
		e.registerErr = sendErr
		if sendErr == nil || after%2 == 0 {
			e.registerErr = fmt.Errorf("%w: can't register", onionmsg.ErrHandlerRegistered)
		}
	}
	if deregisterFails {
		e.deregisterErr = errors.New("not registered")
	}
	quit, stop := make(chan struct{}), make(chan struct{})
	cctx, cancel := context.WithCancel(context.Background())
	ctx := cctx
	if late {
		ctx = lateCtx{cctx}
	}
	defer cancel()
	results := make(chan error, len(payloads)+1)
	messengerDone := make(chan struct{})
	go func() {
		e.run(payloads, stop, results)
		close(messengerDone)
	}()
	var sent []*offersrpc.SubscribeOnionPayloadResponse
	all := make(chan struct{})
	if len(payloads) == 0 {
		close(all)
	}
	send := func(r *offersrpc.SubscribeOnionPayloadResponse) error {
		sent = append(sent, r)
		if len(sent) == len(payloads) {
			defer close(all)
		}
		if len(sent) > after {
			switch end {
			case endSend:
				return sendErr
			case endCancel:
				cancel()
			case endQuit:
				if len(sent) == after+1 {
					close(quit)
				}
			}
		}
		return nil
	}
	if after >= len(payloads) && end != endRegister {
		go func() {
			<-all
			if end == endQuit {
				close(quit)
			} else {
				cancel()
			}
		}()
	}
	returned := make(chan error, 1)
	incoming := make(chan onionPayloadResponse, buffer)
	go func() { returned <- handleSubscribeOnionPayload(ctx, tlv.Type(typ), incoming, quit, e, send) }()
	var err error
	select {
	case err = <-returned:
	case <-time.After(10 * time.Second):
		verifvc.Ensures("the subscription ends", false)
	}
	close(stop)
	select {
	case <-messengerDone:
	case <-time.After(10 * time.Second):
		verifvc.Ensures("the handler is released", false)
	}
	verifvc.Ensures("registered once, for its type", len(e.registered) == 1 && uint64(e.registered[0]) == typ)
	if end == endRegister {
		verifvc.Ensures("unavailable", err != nil && verifvc.Code(err) == codes.Unavailable)
		verifvc.Ensures("nothing sent or deregistered", len(sent) == 0 && len(e.deregistered) == 0)
		return
	}
	verifvc.Ensures("deregistered once, for its type", len(e.deregistered) == 1 && uint64(e.deregistered[0]) == typ)
	switch {
	case end == endSend && after < len(payloads):
		verifvc.Ensures("the error of the send", err == sendErr)
		verifvc.Ensures("nothing sent after a failure", len(sent) == after+1)
	case end == endQuit:
		verifvc.Ensures("shutting down", verifvc.Is(err, ErrShuttingDown))
	default:
		verifvc.Ensures("cancelled", err != nil && verifvc.Code(err) == codes.Canceled)
	}
	// The payloads that a handler handed over; handlers run one at a time.
	var handed []onionPayloadResponse
	for i, n := 0, len(results); i < n; i++ {
		r := <-results
		if r == nil {
			handed = append(handed, payloads[i])
		} else {
			verifvc.Ensures("handler fails when cancelled or shutting down",
				verifvc.Is(r, context.Canceled) || late && verifvc.Is(r, context.DeadlineExceeded) || verifvc.Is(r, ErrShuttingDown))
		}
	}
	verifvc.Ensures("nothing sent twice", len(sent) <= len(handed))
	verifvc.Ensures("nothing lost", after >= len(payloads) || len(sent) > after)
	verifvc.Ensures("everything sent while it lasts", after < len(payloads) || len(sent) == len(payloads))
	for i, r := range sent {
		verifvc.Ensures("payload", verifvc.Eq(r.Value, handed[i].payload))
		verifvc.Ensures("reply path", verifvc.Eq(r.ReplyPath, composeReplyPath(handed[i].replyPath)))
	}
}

func gen_contract_subscription(r *verifvc.Rand) []interface{} {
	var ps []onionPayloadResponse
	for i := r.Count(8); i > 0; i-- {
		b := r.Data(30)
		if r.Coin(20) {
			b = make([]byte, 60000+r.Intn(9000))
		}
		ps = append(ps, onionPayloadResponse{payload: b, replyPath: genReplyPath(r)})
	}
	return []interface{}{64 + r.U64()%1000, ps, subEnd(r.Intn(int(subEnds))), r.Intn(len(ps) + 2), r.Intn(2), r.Coin(4), r.Coin(3), sendErrs[r.Intn(len(sendErrs))]}
}

// envStream is the stream of a subscription.
type envStream struct {
	grpc.ServerStream
	ctx  context.Context
	sent chan *offersrpc.SubscribeOnionPayloadResponse
}

func (e *envStream) Context() context.Context { return e.ctx }

func (e *envStream) Send(r *offersrpc.SubscribeOnionPayloadResponse) error {
	e.sent <- r
	return nil
}

// contract_subscribeAPI: nothing before the server is ready, nothing for types
// that are out of range.
//@ bounded C25 C23 C26 (*Server).SubscribeOnionPayload n=200
func contract_subscribeAPI(typ uint64, ready bool, payload []byte, shutdown bool) {
	e := &envSubscriber{requests: make(chan func())}
	stop := make(chan struct{})
	defer close(stop)
	results := make(chan error, 1)
	go e.run([]onionPayloadResponse{{payload: payload}}, stop, results)
	s := &Server{ready: make(chan struct{}), quit: make(chan struct{}), onionMsgr: e, routeGenerator: &envRoutes{}}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	st := &envStream{ctx: ctx, sent: make(chan *offersrpc.SubscribeOnionPayloadResponse, 10)}
	if !ready {
		cancel()
		err := s.SubscribeOnionPayload(&offersrpc.SubscribeOnionPayloadRequest{TlvType: typ}, st)
		verifvc.Ensures("unavailable", err != nil && verifvc.Code(err) == codes.Unavailable)
		verifvc.Ensures("nothing used", len(e.registered) == 0 && len(st.sent) == 0)
		return
	}
	close(s.ready)
	returned := make(chan error, 1)
	go func() { returned <- s.SubscribeOnionPayload(&offersrpc.SubscribeOnionPayloadRequest{TlvType: typ}, st) }()
	if typ < 64 {
		err := <-returned
		verifvc.Ensures("invalid", err != nil && verifvc.Code(err) == codes.InvalidArgument)
		verifvc.Ensures("nothing registered if invalid", len(e.registered) == 0)
		return
	}
	select {
	case r := <-st.sent:
		verifvc.Ensures("the payload", verifvc.Eq(r.Value, payload) && r.ReplyPath == nil)
	case <-time.After(10 * time.Second):
		verifvc.Ensures("the payload is sent", false)
	}
	want := codes.Canceled
	if shutdown {
		close(s.quit)
		want = codes.Aborted
	} else {
		cancel()
	}
	select {
	case err := <-returned:
		verifvc.Ensures("ends", verifvc.Code(err) == want)
	case <-time.After(10 * time.Second):
		verifvc.Ensures("ends", false)
	}
	verifvc.Ensures("registered and deregistered", len(e.registered) == 1 && len(e.deregistered) == 1 && uint64(e.registered[0]) == typ)
	verifvc.Ensures("nothing else sent", len(st.sent) == 0)
}

func gen_contract_subscribeAPI(r *verifvc.Rand) []interface{} {
	typ := 60 + r.U64()%10
	if r.Coin(3) {
		typ = r.U64()
	}
	return []interface{}{typ, !r.Coin(4), r.Data(20), r.Bool()}
}

// contract_permissions: every method served, and nothing else.
//@ contract C30 n=1
func contract_permissions() {
	want := map[string]bool{}
	for _, m := range offersrpc.Offers_ServiceDesc.Methods {
		want["/"+offersrpc.Offers_ServiceDesc.ServiceName+"/"+m.MethodName] = true
	}
	for _, m := range offersrpc.Offers_ServiceDesc.Streams {
		want["/"+offersrpc.Offers_ServiceDesc.ServiceName+"/"+m.StreamName] = true
	}
	verifvc.Ensures("as many entries as methods", len(RPCServerPermissions) == len(want))
	for m := range want {
		ops, ok := RPCServerPermissions[m]
		verifvc.Ensures("an entry for each method", ok)
		verifvc.Ensures("one permission", len(ops) == 1)
		if m == "/offersrpc.Offers/SendOnionMessage" {
			verifvc.Ensures("sending writes to peers", ops[0].Entity == "peers" && ops[0].Action == "write")
		} else {
			verifvc.Ensures("others read offchain data", ops[0].Entity == "offchain" && ops[0].Action == "read")
		}
	}
}

var _ lnwire.Offer

// envQueue is a messenger that delivers payloads as soon as a handler is
// registered, and the client they are for.
type envQueue struct {
	onionmsg.OnionMessenger
	registerErr   error
	deregisterErr error
	sendErr       error
	after         int
	msgs          []onionPayloadResponse
	registered    []tlv.Type
	deregistered  []tlv.Type
	n             int
	atEnd         func()
}

func (e *envQueue) RegisterHandler(t tlv.Type, h onionmsg.OnionMessageHandler) error {
	e.registered = append(e.registered, t)
	if e.registerErr != nil {
		return e.registerErr
	}
	for _, m := range e.msgs {
		verifvc.Ensures("delivered", h(m.replyPath, nil, m.payload) == nil)
	}
	e.atEnd()
	return nil
}

func (e *envQueue) DeregisterHandler(t tlv.Type) error {
	e.deregistered = append(e.deregistered, t)
	return e.deregisterErr
}

func (e *envQueue) send(r *offersrpc.SubscribeOnionPayloadResponse) error {
	k := e.n
	verifvc.Ensures("no more than was delivered", k < len(e.msgs))
	verifvc.Ensures("the payload delivered", r != nil && bytes.Equal(r.Value, e.msgs[k].payload))
	verifvc.Ensures("its reply path", verifvc.Eq(r.ReplyPath, composeReplyPath(e.msgs[k].replyPath)))
	e.n++
	if e.n > e.after {
		return e.sendErr
	}
	return nil
}

// contract_subscriptionQueue: what the messenger delivers is sent, in order,
// until sending fails, the client cancels or the server stops.
//@ contract C26 handleSubscribeOnionPayload composeReplyPath
func contract_subscriptionQueue(typ tlv.Type, msgs []onionPayloadResponse, registerErr, deregisterErr, sendErr error, after int, end int) {
	verifvc.Requires(after >= 0)
	verifvc.Requires(verifvc.Forall(0, len(msgs), func(i int) bool {
		p := msgs[i].replyPath
		return p == nil || p.FirstNodeID != nil && p.BlindingPoint != nil && verifvc.Forall(0, len(p.Hops), func(j int) bool {
			return p.Hops[j] != nil && p.Hops[j].BlindedNodeID != nil
		})
	}))
	verifvc.Requires(end == 1 || end == 2 || sendErr != nil && after < len(msgs))
	quit := make(chan struct{})
	ctx, cancel := context.WithCancel(context.Background())
	e := &envQueue{registerErr: registerErr, deregisterErr: deregisterErr, sendErr: sendErr, after: after, msgs: msgs}
	e.atEnd = func() {
		switch end {
		case 1:
			cancel()
		case 2:
			close(quit)
		}
	}
	incoming := make(chan onionPayloadResponse, len(msgs))
	err := handleSubscribeOnionPayload(ctx, typ, incoming, quit, e, e.send)
	verifvc.Ensures("registered once, for its type", len(e.registered) == 1 && e.registered[0] == typ)
	if registerErr != nil {
		verifvc.Ensures("unavailable", err != nil && verifvc.Code(err) == codes.Unavailable)
		verifvc.Ensures("nothing sent", e.n == 0)
		verifvc.Ensures("nothing deregistered", len(e.deregistered) == 0)
		return
	}
	verifvc.Ensures("deregistered once, for its type", len(e.deregistered) == 1 && e.deregistered[0] == typ)
	verifvc.Ensures("ends with an error", err != nil)
	if sendErr != nil && e.n > after {
		verifvc.Ensures("the client's error", err == sendErr)
		verifvc.Ensures("stopped when sending failed", e.n == after+1)
		return
	}
	switch end {
	case 1:
		verifvc.Ensures("cancelled", verifvc.Code(err) == codes.Canceled)
	case 2:
		verifvc.Ensures("shutting down", err == ErrShuttingDown)
	default:
		verifvc.Ensures("does not end by itself", false)
	}
}

// inv_queue: what was delivered has been sent or is still waiting.
//@ invariant handleSubscribeOnionPayload
func inv_queue(argMessenger onionmsg.OnionMessenger, argIncoming chan onionPayloadResponse) bool {
	e, ok := argMessenger.(*envQueue)
	return !ok || e.n+len(argIncoming) == len(e.msgs) && (e.sendErr == nil || e.n <= e.after)
}

func gen_contract_subscriptionQueue(r *verifvc.Rand) []interface{} {
	var ms []onionPayloadResponse
	for i := r.Count(5); i > 0; i-- {
		ms = append(ms, onionPayloadResponse{replyPath: genReplyPath(r), payload: r.Data(20)})
	}
	end, after := r.Intn(3), r.Intn(6)
	var reg, dereg, send error
	if r.Coin(5) {
		reg = errors.New("can't register")
	}
	if r.Coin(5) {
		dereg = errors.New("can't deregister")
	}
	if end == 0 && len(ms) == 0 {
		end = 1
	}
	if end == 0 || r.Coin(3) {
		send = errSend
	}
	if end == 0 {
		after = r.Intn(len(ms))
	}
	return []interface{}{tlv.Type(r.U64()), ms, reg, dereg, send, after, end}
}
