package onionmsg

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/chaincfg"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/verifvc"
	"github.com/lightninglabs/lndclient"
	sphinx "github.com/lightningnetwork/lightning-onion"
	"github.com/lightningnetwork/lnd/routing/route"
)

// contract_registerHandler: the entry of the request's type, and no other.
//@ contract C20 (*Messenger).registerHandler
func contract_registerHandler(handlers map[tlvT]OnionMessageHandler, typ, probe uint64, deregister bool) {
	verifvc.Requires(handlers != nil)
	h := OnionMessageHandler(func(*lnwire.ReplyPath, []byte, []byte) error { return errHandler })
	m := &Messenger{onionMsgHandlers: handlers}
	before, had := handlers[tlvType(typ)]
	other, probed := handlers[tlvType(probe)]
	size := len(handlers)
	err := m.registerHandler(&registerHandler{tlvType: tlvType(typ), handler: h, deregister: deregister})
	now, has := m.onionMsgHandlers[tlvType(typ)]
	others, probes := m.onionMsgHandlers[tlvType(probe)]
	verifvc.Ensures("other entries unchanged", probe == typ || probes == probed && verifvc.Same(others, other))
	switch {
	case deregister && !had:
		verifvc.Ensures("nothing to remove", verifvc.Is(err, ErrHandlerNotFound) && !has && len(m.onionMsgHandlers) == size)
	case deregister:
		verifvc.Ensures("removed", err == nil && !has && len(m.onionMsgHandlers) == size-1)
	case had:
		verifvc.Ensures("already registered", verifvc.Is(err, ErrHandlerRegistered) && has && len(m.onionMsgHandlers) == size)
		verifvc.Ensures("handler kept", verifvc.Same(now, before))
	default:
		verifvc.Ensures("added", err == nil && has && len(m.onionMsgHandlers) == size+1)
		verifvc.Ensures("the handler given", verifvc.Same(now, h))
	}
}

var errHandler = errors.New("handler")

func gen_contract_registerHandler(r *verifvc.Rand) []interface{} {
	hs := map[tlvT]OnionMessageHandler{}
	wide := r.Bool()
	var types []uint64
	typ := func() uint64 {
		t := 64 + uint64(r.Intn(6))
		if wide {
			t = r.U64()
		}
		if len(types) > 0 && r.Bool() {
			t = types[r.Intn(len(types))]
			if wide && r.Coin(3) {
				t ^= 1 << uint(r.Intn(64))
			}
			if wide && r.Coin(6) {
				t = uint64(uint32(t))
			}
		}
		types = append(types, t)
		return t
	}
	for i := r.Count(6); i > 0; i-- {
		hs[tlvType(typ())] = func(*lnwire.ReplyPath, []byte, []byte) error { return nil }
	}
	return []interface{}{hs, typ(), typ(), r.Bool()}
}

type evKind int

const (
	evOurs evKind = iota
	evJunk
	evOther
	evForward
	evRegister
	evDeregister
	evReplay
)

type event struct {
	kind   evKind
	typ    uint64
	finals []*lnwire.FinalHopPayload
	reply  *lnwire.ReplyPath
	raw    []byte
	from   route.Vertex
	next   *btcec.PublicKey
	msg    uint32
}

type ending int

const (
	endMessages ending = iota
	endErrors
	endError
	endStop
	endSubscribe
	endings
)

func within(what string, c <-chan struct{}) {
	select {
	case <-c:
	case <-time.After(10 * time.Second):
		verifvc.Ensures(what, false)
	}
}

// contract_messageLoop runs a messenger through a history of messages and
// registrations: every message is processed once, none ends the processing,
// and the end of the processing is reported once unless it was asked for.
//@ bounded C21 C20 C18 C27 C19 (*Messenger).manageOnionMessages (*Messenger).Start (*Messenger).Stop (*Messenger).RegisterHandler (*Messenger).DeregisterHandler (*Messenger).handleRegistration NewOnionMessenger handleOnionMessage n=400
func contract_messageLoop(node *btcec.PrivateKey, events []event, end ending, before []uint64) {
	msgs := make(chan lndclient.CustomMessage)
	errs := make(chan error)
	subErr := errors.New("can't subscribe")
	lnd := &envLnd{subscribe: func() (<-chan lndclient.CustomMessage, <-chan error, error) {
		if end == endSubscribe {
			return nil, nil, subErr
		}
		return msgs, errs, nil
	}}
	reasons := make(chan error, 100)
	m := NewOnionMessenger(&chaincfg.RegressionNetParams, lnd, &sphinx.PrivKeyECDH{PrivKey: node}, func(err error) { reasons <- err })
	for _, t := range before {
		verifvc.Ensures("not started", m.RegisterHandler(tlvType(t), nil) != nil)
	}
	verifvc.Ensures("starts", m.Start() == nil)
	verifvc.Ensures("starts once", m.Start() != nil)
	stopped := false
	defer func() {
		if !stopped {
			m.Stop()
		}
	}()
	if end == endSubscribe {
		select {
		case r := <-reasons:
			verifvc.Ensures("failed subscription reported", verifvc.Is(r, subErr))
		case <-time.After(10 * time.Second):
			verifvc.Ensures("failed subscription reported", false)
		}
		stopped = true
		verifvc.Ensures("stops", m.Stop() == nil)
		verifvc.Ensures("reported once", len(reasons) == 0)
		return
	}
	give := func(msg lndclient.CustomMessage) {
		select {
		case msgs <- msg:
		case <-time.After(10 * time.Second):
			verifvc.Ensures("messages keep being processed", false)
		}
	}
	var mu sync.Mutex
	var got, want []envHandled
	var forwards []lndclient.CustomMessage
	registered := map[uint64]int{}
	gen := 0
	for _, ev := range events {
		switch ev.kind {
		case evOurs:
			give(lndclient.CustomMessage{Peer: ev.from, MsgType: 513, Data: ev.raw})
			for _, f := range ev.finals {
				if g, ok := registered[uint64(f.TLVType)]; ok {
					want = append(want, envHandled{uint64(f.TLVType) + uint64(g)<<32, ev.reply, nil, f.Value})
					if verifvc.Fails("handler", uint64(f.TLVType), f.Value) != nil {
						break
					}
				}
			}
		case evJunk, evReplay:
			give(lndclient.CustomMessage{Peer: ev.from, MsgType: 513, Data: ev.raw})
		case evOther:
			give(lndclient.CustomMessage{Peer: ev.from, MsgType: ev.msg, Data: ev.raw})
		case evForward:
			give(lndclient.CustomMessage{Peer: ev.from, MsgType: 513, Data: ev.raw})
			blinding, blob, _ := decodeOnion(ev.raw)
			key := &sphinx.PrivKeyECDH{PrivKey: node}
			rt := newRouter(key)
			proc, err := process(rt, blob, blinding)
			rt.Stop()
			if err != nil {
				panic(err)
			}
			nb, err := sphinx.NextEphemeral(key, blinding)
			if err != nil {
				panic(err)
			}
			forwards = append(forwards, lndclient.CustomMessage{Peer: route.NewVertex(ev.next), MsgType: 513, Data: encodeOnion(nb, proc)})
		case evRegister:
			gen++
			g, t := gen, ev.typ
			err := m.RegisterHandler(tlvType(t), func(reply *lnwire.ReplyPath, data, value []byte) error {
				mu.Lock()
				defer mu.Unlock()
				got = append(got, envHandled{t + uint64(g)<<32, reply, data, value})
				return verifvc.Fails("handler", t, value)
			})
			_, had := registered[t]
			switch {
			case t < 64:
				verifvc.Ensures("type out of range", verifvc.Is(err, lnwire.ErrNotFinalPayload))
			case had:
				verifvc.Ensures("already registered", verifvc.Is(err, ErrHandlerRegistered))
			default:
				verifvc.Ensures("registered", err == nil)
				registered[t] = g
			}
		case evDeregister:
			err := m.DeregisterHandler(tlvType(ev.typ))
			_, had := registered[ev.typ]
			switch {
			case ev.typ < 64:
				verifvc.Ensures("type out of range", verifvc.Is(err, lnwire.ErrNotFinalPayload))
			case had:
				verifvc.Ensures("deregistered", err == nil)
				delete(registered, ev.typ)
			default:
				verifvc.Ensures("not registered", verifvc.Is(err, ErrHandlerNotFound))
			}
		}
	}
	// Once this one is taken, the ones before it have been processed.
	give(lndclient.CustomMessage{MsgType: 1})
	mu.Lock()
	verifvc.Ensures("every message for us handled once, in order", verifvc.Eq(got, want))
	mu.Unlock()
	lnd.mu.Lock()
	verifvc.Ensures("every message to forward forwarded once, in order", verifvc.Eq(lnd.sent, forwards))
	lnd.mu.Unlock()
	verifvc.Ensures("still running", len(reasons) == 0)
	reason := errors.New("stream failed")
	switch end {
	case endMessages:
		close(msgs)
		reason = ErrLNDShutdown
	case endErrors:
		close(errs)
		reason = ErrLNDShutdown
	case endError:
		select {
		case errs <- reason:
		case <-time.After(10 * time.Second):
			verifvc.Ensures("stream errors are noticed", false)
		}
	case endStop:
		stopped = true
		verifvc.Ensures("stops", m.Stop() == nil)
		verifvc.Ensures("stops once", m.Stop() != nil)
		verifvc.Ensures("no shutdown requested when stopped", len(reasons) == 0)
		err := m.RegisterHandler(tlvType(64), nil)
		verifvc.Ensures("no registration when stopped", verifvc.Is(err, ErrShuttingDown))
		return
	}
	select {
	case r := <-reasons:
		verifvc.Ensures("shutdown requested with the reason", verifvc.Is(r, reason))
	case <-time.After(10 * time.Second):
		verifvc.Ensures("shutdown requested", false)
	}
	stopped = true
	verifvc.Ensures("stops", m.Stop() == nil)
	verifvc.Ensures("shutdown requested once", len(reasons) == 0)
}

func gen_contract_messageLoop(r *verifvc.Rand) []interface{} {
	verifvc.FailOneIn([]int{2, 3, 1000}[r.Intn(3)])
	node := r.Priv()
	var evs []event
	if r.Bool() {
		evs = append(evs, event{kind: evRegister, typ: 64 + uint64(r.Intn(2))})
	}
	var types []uint64
	only := r.Coin(10)
	onlyKind := evKind(r.Intn(7))
	n := r.Intn(14)
	if only {
		n = r.Intn(40)
		if r.Coin(3) {
			n = r.Count(40)
		}
	}
	for i := n; i > 0; i-- {
		e := event{kind: evKind(r.Intn(7))}
		if only {
			e.kind = onlyKind
		}
		if !r.Coin(4) {
			e.from = route.NewVertex(r.Key())
		}
		if !only && r.Coin(4) {
			e.kind = evOurs
		}
		switch e.kind {
		case evOurs:
			e.finals, e.reply = genFinals(r), genReply(r)
			var p []byte
			if e.reply != nil {
				b := append(append([]byte{}, e.reply.FirstNodeID.SerializeCompressed()...), e.reply.BlindingPoint.SerializeCompressed()...)
				b = append(b, byte(len(e.reply.Hops)))
				for _, h := range e.reply.Hops {
					b = append(b, h.BlindedNodeID.SerializeCompressed()...)
					b = append(b, byte(len(h.EncryptedData)>>8), byte(len(h.EncryptedData)))
					b = append(b, h.EncryptedData...)
				}
				p = verifvc.TLV(2, b)
			}
			for _, f := range e.finals {
				p = append(p, verifvc.TLV(uint64(f.TLVType), f.Value)...)
			}
			e.raw = genOnion(r, node.PubKey(), nil, p)
		case evForward:
			e.next = r.Key()
			e.raw = genOnion(r, node.PubKey(), e.next, nil)
			// Sending must not depend on chance for the expectation.
		case evJunk:
			switch r.Intn(6) {
			case 0:
				e.raw = r.Bytes(100)
			case 1:
				e.raw = genOnion(r, verifvc.KeyN(99).PubKey(), nil, nil)
			case 2:
				e.raw = genOnion(r, node.PubKey(), nil, []byte{4, 10, 1})
			case 3:
				e.raw = genOnion(r, node.PubKey(), nil, nil)
				e.raw = e.raw[:len(e.raw)-1-r.Intn(40)]
			case 4:
				e.raw = genOnion(r, node.PubKey(), r.Key(), nil)
				e.raw[60] ^= 1
			case 5:
				// Data that nobody can decrypt.
				e.raw = genOnionData(r, node.PubKey(), r.Bytes(40))
			}
		case evReplay:
			for _, p := range evs {
				if p.kind == evOurs || p.kind == evForward {
					e.raw = p.raw
				}
			}
		case evOther:
			e.msg = []uint32{0, 1, 512, 514, 1025, 66049}[r.Intn(6)]
			e.raw = genOnion(r, node.PubKey(), nil, verifvc.TLV(64, nil))
		case evRegister, evDeregister:
			e.typ = 63 + uint64(r.Intn(5))
			if only || r.Coin(4) {
				e.typ = r.U64()
			}
			if len(types) > 0 && r.Coin(3) {
				e.typ = types[r.Intn(len(types))]
				if r.Coin(3) {
					e.typ += 1 << 32
				}
			}
			types = append(types, e.typ)
		}
		evs = append(evs, e)
	}
	return []interface{}{node, evs, ending(r.Intn(int(endings))), []uint64{64, uint64(r.Intn(100))}}
}

// genOnionData is an onion to be forwarded with the given encrypted data.
func genOnionData(r *verifvc.Rand, node *btcec.PublicKey, data []byte) []byte {
	session := r.Priv()
	plain := []*sphinx.BlindedPathHop{{NodePub: node}, {NodePub: r.Key()}}
	bp, err := sphinx.BuildBlindedPath(session, plain)
	if err != nil {
		panic(err)
	}
	var path sphinx.PaymentPath
	for i := range plain {
		path[i] = sphinx.OnionHop{NodePub: *bp.BlindedHops[i], HopPayload: sphinx.HopPayload{Type: sphinx.PayloadTLV, Payload: verifvc.TLV(4, data)}}
	}
	return encodeOnion(bp.BlindingPoint, encodePath(r, &path))
}

func process(rt *sphinx.Router, blob []byte, blinding *btcec.PublicKey) ([]byte, error) {
	pkt, err := decodePacket(blob)
	if err != nil {
		return nil, err
	}
	p, err := rt.ProcessOnionPacket(pkt, nil, 0, blinding)
	if err != nil {
		return nil, err
	}
	if p.NextPacket == nil {
		return nil, fmt.Errorf("no next packet")
	}
	return encodePacket(p.NextPacket)
}

// contract_registrations runs registrations from several goroutines: for each
// type the successful ones alternate, and every request is answered.
//@ bounded C20 (*Messenger).handleRegistration (*Messenger).registerHandler (*Messenger).manageOnionMessages n=200
func contract_registrations(ops [][]uint64, stop int) {
	m := NewOnionMessenger(&chaincfg.RegressionNetParams, &envLnd{subscribe: func() (<-chan lndclient.CustomMessage, <-chan error, error) {
		return make(chan lndclient.CustomMessage), make(chan error), nil
	}}, &sphinx.PrivKeyECDH{PrivKey: verifvc.KeyN(0)}, func(error) {})
	verifvc.Ensures("starts", m.Start() == nil)
	var mu sync.Mutex
	balance := map[uint64]int{}
	bad := ""
	done := make(chan struct{})
	var wg sync.WaitGroup
	for _, list := range ops {
		wg.Add(1)
		go func(list []uint64) {
			defer wg.Done()
			for _, op := range list {
				t := 64 + op/2
				var err error
				if op%2 == 0 {
					err = m.RegisterHandler(tlvType(t), func(*lnwire.ReplyPath, []byte, []byte) error { return nil })
				} else {
					err = m.DeregisterHandler(tlvType(t))
				}
				mu.Lock()
				switch {
				case err == nil && op%2 == 0:
					balance[t]++
				case err == nil:
					balance[t]--
				case errors.Is(err, ErrShuttingDown) && stop > 0:
				case op%2 == 0 && errors.Is(err, ErrHandlerRegistered):
				case op%2 == 1 && errors.Is(err, ErrHandlerNotFound):
				default:
					bad = err.Error()
				}
				mu.Unlock()
			}
		}(list)
	}
	go func() { wg.Wait(); close(done) }()
	if stop > 0 {
		time.Sleep(time.Duration(stop) * 20 * time.Microsecond)
		verifvc.Ensures("stops", m.Stop() == nil)
	}
	within("every request is answered", done)
	mu.Lock()
	defer mu.Unlock()
	verifvc.Ensures("only the outcomes there are", bad == "")
	if stop > 0 {
		return
	}
	verifvc.Ensures("stops", m.Stop() == nil)
	for t := uint64(64); t < 70; t++ {
		_, has := m.onionMsgHandlers[tlvType(t)]
		n := 0
		if has {
			n = 1
		}
		verifvc.Ensures("outcomes agree with the handlers registered", balance[t] == n)
	}
}

func gen_contract_registrations(r *verifvc.Rand) []interface{} {
	var ops [][]uint64
	for i := 1 + r.Intn(5); i > 0; i-- {
		var l []uint64
		for j := r.Intn(12); j > 0; j-- {
			l = append(l, uint64(r.Intn(6)))
		}
		ops = append(ops, l)
	}
	stop := 0
	if r.Coin(3) {
		stop = 1 + r.Intn(10)
	}
	return []interface{}{ops, stop}
}

// contract_startStopRace: of any number of concurrent starts and stops, one of
// each succeeds.
//@ bounded C27 (*Messenger).Start (*Messenger).Stop n=200
func contract_startStopRace(n int) {
	subs := make(chan struct{}, 100)
	m := NewOnionMessenger(&chaincfg.RegressionNetParams, &envLnd{subscribe: func() (<-chan lndclient.CustomMessage, <-chan error, error) {
		subs <- struct{}{}
		return make(chan lndclient.CustomMessage), make(chan error), nil
	}}, &sphinx.PrivKeyECDH{PrivKey: verifvc.KeyN(0)}, func(error) {})
	count := func(f func() error) int {
		var mu sync.Mutex
		ok := 0
		var wg sync.WaitGroup
		begin := make(chan struct{})
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-begin
				if f() == nil {
					mu.Lock()
					ok++
					mu.Unlock()
				}
			}()
		}
		close(begin)
		wg.Wait()
		return ok
	}
	verifvc.Ensures("one start succeeds", count(m.Start) == 1)
	verifvc.Ensures("one stop succeeds", count(m.Stop) == 1)
	verifvc.Ensures("no start after", m.Start() != nil)
	verifvc.Ensures("subscribed at most once", len(subs) <= 1)
}

func gen_contract_startStopRace(r *verifvc.Rand) []interface{} {
	return []interface{}{1 + r.Intn(8)}
}

var _ = context.Background

// contract_stopOrder: stopping waits for the message being processed, and only
// then stops the onion router.
//@ bounded C27 (*Messenger).Stop n=30
func contract_stopOrder(node *btcec.PrivateKey, first, second []byte) {
	msgs := make(chan lndclient.CustomMessage)
	m := NewOnionMessenger(&chaincfg.RegressionNetParams, &envLnd{subscribe: func() (<-chan lndclient.CustomMessage, <-chan error, error) {
		return msgs, make(chan error), nil
	}}, &sphinx.PrivKeyECDH{PrivKey: node}, func(error) {})
	verifvc.Ensures("starts", m.Start() == nil)
	entered, release := make(chan struct{}), make(chan struct{})
	err := m.RegisterHandler(tlvType(64), func(*lnwire.ReplyPath, []byte, []byte) error {
		close(entered)
		<-release
		return nil
	})
	verifvc.Ensures("registered", err == nil)
	msgs <- lndclient.CustomMessage{MsgType: 513, Data: first}
	within("message handled", entered)
	stopped := make(chan struct{})
	go func() {
		m.Stop()
		close(stopped)
	}()
	select {
	case <-stopped:
		verifvc.Ensures("waits for the handler", false)
	case <-time.After(20 * time.Millisecond):
	}
	_, _, err = m.processOnion(second)
	verifvc.Ensures("router still running", err == nil)
	close(release)
	within("stops once the handler is done", stopped)
}

func gen_contract_stopOrder(r *verifvc.Rand) []interface{} {
	node := r.Priv()
	return []interface{}{node, genOnion(r, node.PubKey(), nil, verifvc.TLV(64, nil)), genOnion(r, node.PubKey(), nil, verifvc.TLV(64, nil))}
}

// envLoop is the lnd node a messenger listens to.
type envLoop struct {
	LndOnionMsg
	m       *Messenger
	msgs    chan lndclient.CustomMessage
	errs    chan error
	subErr  error
	subs    int
	handled []envSeen
	// all that lnd sends, and the request of a handler that is waiting.
	sends []lndclient.CustomMessage
	req   *registerHandler
}

type envSeen struct {
	peer route.Vertex
	data []byte
}

var ghostLoop *envLoop

func (e *envLoop) SubscribeCustomMessages(ctx context.Context) (<-chan lndclient.CustomMessage, <-chan error, error) {
	e.subs++
	if e.subErr != nil {
		return nil, nil, e.subErr
	}
	return e.msgs, e.errs, nil
}

// sumHandle stands for the handling of a message; see
// contract_handleOnionMessage.
//@ summary github.com/carlakc/boltnd/onionmsg.handleOnionMessage
func sumHandle(msg lndclient.CustomMessage, kit *onionMessageKit) error {
	g := ghostLoop
	verifvc.Ensures("an onion message", msg.MsgType == 513)
	verifvc.Ensures("with the messenger's handlers", verifvc.Same(kit.handlers, g.m.onionMsgHandlers))
	verifvc.Ensures("with the messenger's functions", kit.processOnion != nil && kit.decodePayload != nil && kit.decryptDataBlob != nil && kit.forwardMessage != nil)
	g.handled = append(g.handled, envSeen{msg.Peer, msg.Data})
	return verifvc.Fails("handle", msg.Peer, msg.Data)
}

// sumRegister stands for the change of the handlers; see
// contract_registerHandler.
//@ summary (*github.com/carlakc/boltnd/onionmsg.Messenger).registerHandler
func sumRegister(m *Messenger, r *registerHandler) error {
	return verifvc.Fails("register", uint64(r.tlvType), r.deregister)
}

// specOnion gives the onion messages among the first n that lnd sends.
func specOnion(ms []lndclient.CustomMessage, n int) []envSeen {
	var out []envSeen
	for i := 0; i < n; i++ {
		if ms[i].MsgType == 513 {
			out = append(out, envSeen{ms[i].Peer, ms[i].Data})
		}
	}
	return out
}

// end ends what the messenger listens to.
func (e *envLoop) end(how int, err error) {
	switch how {
	case 0:
		close(e.msgs)
	case 1:
		close(e.errs)
	case 2:
		e.errs <- err
	case 3:
		close(e.m.quit)
	}
}

func (e *envLoop) ended(how int, err, lndErr error) {
	verifvc.Ensures("subscribed once", e.subs == 1)
	verifvc.Ensures("ends with an error", err != nil)
	switch how {
	case 0:
		verifvc.Ensures("lnd shut down", verifvc.Is(err, ErrLNDShutdown) && len(e.msgs) == 0)
	case 1:
		verifvc.Ensures("lnd shut down with the errors", verifvc.Is(err, ErrLNDShutdown))
	case 2:
		verifvc.Ensures("lnd's error", verifvc.Is(err, lndErr))
	case 3:
		verifvc.Ensures("shutting down", err == ErrShuttingDown)
	}
}

// contract_loopMessages: every onion message received is handled once, in
// order, whatever becomes of it; the loop ends when lnd or the messenger
// stops.
//@ deductive C21 (*Messenger).manageOnionMessages
//@ uses sumHandle
func contract_loopMessages(msgs []lndclient.CustomMessage, end int, lndErr, subErr error) {
	verifvc.Requires(end >= 0 && end <= 3 && lndErr != nil)
	g := &envLoop{msgs: make(chan lndclient.CustomMessage, len(msgs)), errs: make(chan error, 1), subErr: subErr, sends: msgs}
	m := &Messenger{lnd: g, quit: make(chan struct{}), handlerRegistration: make(chan *registerHandler), onionMsgHandlers: make(map[tlvT]OnionMessageHandler)}
	g.m = m
	ghostLoop = g
	for _, msg := range msgs {
		g.msgs <- msg
	}
	g.end(end, lndErr)
	err := m.manageOnionMessages(context.Background())
	if subErr != nil {
		verifvc.Ensures("can't subscribe", verifvc.Is(err, subErr) && len(g.handled) == 0)
		return
	}
	g.ended(end, err, lndErr)
	verifvc.Ensures("every onion message handled once, in order", verifvc.Eq(g.handled, specOnion(msgs, len(msgs)-len(g.msgs))))
}

// contract_loopRequest: a request is answered with what became of it, and only
// once it has been taken.
//@ deductive C21 C20 (*Messenger).manageOnionMessages newRegisterHandler
//@ uses sumRegister
func contract_loopRequest(end int, lndErr error, typ uint64, deregister bool) {
	verifvc.Requires(end >= 0 && end <= 3 && lndErr != nil)
	g := &envLoop{msgs: make(chan lndclient.CustomMessage), errs: make(chan error, 1)}
	m := &Messenger{lnd: g, quit: make(chan struct{}), handlerRegistration: make(chan *registerHandler, 1), onionMsgHandlers: make(map[tlvT]OnionMessageHandler)}
	g.m = m
	ghostLoop = g
	g.req = newRegisterHandler(tlvType(typ), nil, deregister)
	m.handlerRegistration <- g.req
	g.end(end, lndErr)
	err := m.manageOnionMessages(context.Background())
	g.ended(end, err, lndErr)
	n, closed := verifvc.SentN(g.req.errChan), verifvc.Closed(g.req.errChan)
	if len(m.handlerRegistration) != 0 {
		verifvc.Ensures("no answer yet", n == 0 && !closed)
		return
	}
	want := verifvc.Fails("register", typ, deregister)
	if want == nil {
		verifvc.Ensures("success is told by closing", n == 0 && closed)
		return
	}
	var got error
	verifvc.SentAt(&got, g.req.errChan, 0)
	verifvc.Ensures("failure is told", n == 1 && !closed && got == want)
}

// inv_answered: a request is answered once it has been taken.
//@ invariant (*Messenger).manageOnionMessages
func inv_answered(argM *Messenger) bool {
	g := ghostLoop
	if g.req == nil {
		return true
	}
	n, closed := verifvc.SentN(g.req.errChan), verifvc.Closed(g.req.errChan)
	if len(argM.handlerRegistration) != 0 {
		return n == 0 && !closed
	}
	want := verifvc.Fails("register", uint64(g.req.tlvType), g.req.deregister)
	if want == nil {
		return n == 0 && closed
	}
	var err error
	verifvc.SentAt(&err, g.req.errChan, 0)
	return n == 1 && !closed && err == want
}

// inv_one: at most one request is waiting.
//@ invariant (*Messenger).manageOnionMessages
func inv_one(argM *Messenger) bool { return len(argM.handlerRegistration) <= 1 }

// contract_stopFirst: a messenger that is stopped before it is started does not
// process anything.
//@ bounded C27 (*Messenger).Stop (*Messenger).Start n=20
func contract_stopFirst(node *btcec.PrivateKey) {
	msgs := make(chan lndclient.CustomMessage)
	lnd := &envLnd{subscribe: func() (<-chan lndclient.CustomMessage, <-chan error, error) {
		return msgs, make(chan error), nil
	}}
	told := make(chan error, 10)
	m := NewOnionMessenger(&chaincfg.RegressionNetParams, lnd, &sphinx.PrivKeyECDH{PrivKey: node}, func(err error) { told <- err })
	verifvc.Ensures("stops", m.Stop() == nil)
	verifvc.Ensures("stops once", m.Stop() != nil)
	if m.Start() != nil {
		return
	}
	done := make(chan struct{})
	go func() {
		m.wg.Wait()
		close(done)
	}()
	select {
	case <-done:
		verifvc.Ensures("ends", true)
	case <-time.After(10 * time.Second):
		verifvc.Ensures("ends", false)
	}
	verifvc.Ensures("not reported as a failure", len(told) == 0)
}

// contract_stopOnce: a messenger stops at most once, its router last.
//@ deductive C27 (*Messenger).Stop
//@ uses sumRouterStop
func contract_stopOnce(stopped int32) {
	m := &Messenger{stopped: stopped, router: &sphinx.Router{}, quit: make(chan struct{})}
	ghostRouter = nil
	err := m.Stop()
	if stopped != 0 {
		verifvc.Ensures("already stopped", err != nil && len(ghostRouter) == 0 && !verifvc.Closed(m.quit))
		return
	}
	verifvc.Ensures("stopped", err == nil && len(ghostRouter) == 1 && ghostRouter[0] == 2 && verifvc.Closed(m.quit))
	verifvc.Ensures("can't be stopped again", m.Stop() != nil && len(ghostRouter) == 1)
}
