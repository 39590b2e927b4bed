package onionmsg

import (
	"context"
	"errors"
	"time"

	"github.com/btcsuite/btcd/chaincfg"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/verifvc"
	sphinx "github.com/lightningnetwork/lightning-onion"
)

// contract_registrationReply: a request is handed over once, and the answer is
// told.
//@ contract C20 (*Messenger).handleRegistration newRegisterHandler
func contract_registrationReply(typ uint64, deregister bool, started int32, answer int, reply error) {
	verifvc.Requires(reply != nil)
	m := &Messenger{started: started, quit: make(chan struct{}), handlerRegistration: make(chan *registerHandler, 1)}
	req := newRegisterHandler(tlvType(typ), func(*lnwire.ReplyPath, []byte, []byte) error { return errHandler }, deregister)
	switch answer {
	case 1:
		req.errChan <- reply
	case 2:
		close(req.errChan)
	default:
		close(m.quit)
	}
	err := m.handleRegistration(req, "ask")
	if typ < 64 || started != 1 {
		verifvc.Ensures("refused", err != nil && len(m.handlerRegistration) == 0)
		verifvc.Ensures("not started", typ < 64 || verifvc.Is(err, ErrNotStarted))
		return
	}
	switch answer {
	case 1:
		verifvc.Ensures("what went wrong", verifvc.Is(err, reply) && len(m.handlerRegistration) == 1)
	case 2:
		verifvc.Ensures("done", err == nil && len(m.handlerRegistration) == 1)
	default:
		verifvc.Ensures("shutting down", verifvc.Is(err, ErrShuttingDown))
	}
	if len(m.handlerRegistration) == 1 {
		got := <-m.handlerRegistration
		verifvc.Ensures("the request", got == req && got.tlvType == tlvType(typ) && got.deregister == deregister && got.handler(nil, nil, nil) == errHandler)
	}
}

func gen_contract_registrationReply(r *verifvc.Rand) []interface{} {
	started := int32(1)
	if r.Coin(6) {
		started = int32(r.Intn(4)) - 1
	}
	return []interface{}{60 + r.U64()%12, r.Bool(), started, r.Intn(3), errors.New("can't register")}
}

// contract_registrationAsk: what a (de)registration asks for.
//@ contract C20 (*Messenger).RegisterHandler (*Messenger).DeregisterHandler (*Messenger).handleRegistration
func contract_registrationAsk(typ uint64, deregister bool, started int32) {
	m := &Messenger{started: started, quit: make(chan struct{}), handlerRegistration: make(chan *registerHandler, 1)}
	close(m.quit)
	var err error
	if deregister {
		err = m.DeregisterHandler(tlvType(typ))
	} else {
		err = m.RegisterHandler(tlvType(typ), func(*lnwire.ReplyPath, []byte, []byte) error { return errHandler })
	}
	verifvc.Ensures("nobody answers", err != nil)
	if typ < 64 || started != 1 {
		verifvc.Ensures("refused", len(m.handlerRegistration) == 0)
		return
	}
	verifvc.Ensures("shutting down", verifvc.Is(err, ErrShuttingDown))
	if len(m.handlerRegistration) == 1 {
		req := <-m.handlerRegistration
		verifvc.Ensures("its type", req.tlvType == tlvType(typ) && req.deregister == deregister && req.errChan != nil)
		verifvc.Ensures("its handler", deregister || req.handler(nil, nil, nil) == errHandler)
	}
}

func gen_contract_registrationAsk(r *verifvc.Rand) []interface{} {
	started := int32(1)
	if r.Coin(6) {
		started = int32(r.Intn(4)) - 1
	}
	return []interface{}{60 + r.U64()%12, r.Bool(), started}
}

// sumManage stands for the processing of messages; see contract_loopMessages.
//@ summary (*github.com/carlakc/boltnd/onionmsg.Messenger).manageOnionMessages
func sumManage(m *Messenger, ctx context.Context) error {
	ghostManaged++
	return ghostManage
}

//@ summary (*github.com/lightningnetwork/lightning-onion.Router).Start
func sumRouterStart(r *sphinx.Router) error {
	ghostRouter = append(ghostRouter, 1)
	return ghostRouterErr
}

//@ summary (*github.com/lightningnetwork/lightning-onion.Router).Stop
func sumRouterStop(r *sphinx.Router) { ghostRouter = append(ghostRouter, 2) }

var (
	ghostManaged                int
	ghostManage, ghostRouterErr error
	ghostRouter                 []int
)

// contract_startOnce: a messenger starts at most once, and tells the daemon
// when the processing of messages fails.
//@ deductive C27 C21 (*Messenger).Start (*Messenger).hasStarted
//@ uses sumManage sumRouterStart
func contract_startOnce(started int32, manage, router error) {
	var told []error
	m := &Messenger{started: started, router: &sphinx.Router{}, requestShutdown: func(err error) { told = append(told, err) }, quit: make(chan struct{})}
	ghostManaged, ghostManage, ghostRouterErr, ghostRouter = 0, manage, router, nil
	err := m.Start()
	m.wg.Wait()
	if started != 0 {
		verifvc.Ensures("already started", err != nil && ghostManaged == 0 && len(ghostRouter) == 0 && len(told) == 0)
		return
	}
	verifvc.Ensures("started", m.hasStarted())
	verifvc.Ensures("can't be started again", m.Start() != nil && len(ghostRouter) == 1)
	if router != nil {
		verifvc.Ensures("no router", verifvc.Is(err, router) && ghostManaged == 0 && len(told) == 0)
		return
	}
	verifvc.Ensures("messages are processed", err == nil && ghostManaged == 1)
	if manage == nil || manage == ErrShuttingDown {
		verifvc.Ensures("nothing to tell", len(told) == 0)
		return
	}
	verifvc.Ensures("told once", len(told) == 1 && told[0] == manage)
}

// contract_busyLoop: a request waits for as long as the loop is busy.
//@ bounded C20 (*Messenger).handleRegistration n=2
func contract_busyLoop(deregister bool) {
	m := NewOnionMessenger(&chaincfg.RegressionNetParams, &envLnd{}, &sphinx.PrivKeyECDH{PrivKey: verifvc.KeyN(0)}, func(error) {})
	m.started = 1
	done := make(chan struct{})
	var err error
	go func() {
		if deregister {
			err = m.DeregisterHandler(tlvType(64))
		} else {
			err = m.RegisterHandler(tlvType(64), nil)
		}
		close(done)
	}()
	time.Sleep(700 * time.Millisecond)
	select {
	case req := <-m.handlerRegistration:
		time.Sleep(700 * time.Millisecond)
		select {
		case <-done:
			verifvc.Ensures("waits for the answer", false)
		default:
		}
		close(req.errChan)
	case <-time.After(5 * time.Second):
		verifvc.Ensures("the request is still there", false)
	}
	within("the request is answered", done)
	verifvc.Ensures("succeeds", err == nil)
}

func gen_contract_busyLoop(r *verifvc.Rand) []interface{} { return []interface{}{r.Bool()} }

