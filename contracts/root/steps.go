package boltnd

import (
	"time"

	"github.com/carlakc/boltnd/rpcserver"
	"github.com/carlakc/boltnd/verifvc"
	"github.com/lightninglabs/lndclient"
)

// envSteps records what a daemon does to start and stop.
type envSteps struct {
	attempts int
	waits    int
	lnd      *lndclient.GrpcLndServices
	started  []*lndclient.LndServices
	startErr error
	stops    int
	stopErr  error
	told     int
}

var ghostSteps *envSteps

// sumConnect stands for a connection attempt.
//@ summary github.com/lightninglabs/lndclient.NewLndServices
func sumConnect(cfg *lndclient.LndServicesConfig) (*lndclient.GrpcLndServices, error) {
	g := ghostSteps
	i := g.attempts
	g.attempts++
	if err := verifvc.Fails("connect", i); err != nil {
		return nil, err
	}
	return g.lnd, nil
}

//@ summary (*github.com/carlakc/boltnd/rpcserver.Server).Start
func sumServerStart(s *rpcserver.Server, lnd *lndclient.LndServices) error {
	ghostSteps.started = append(ghostSteps.started, lnd)
	return ghostSteps.startErr
}

//@ summary (*github.com/carlakc/boltnd/rpcserver.Server).Stop
func sumServerStop(s *rpcserver.Server) error {
	ghostSteps.stops++
	return ghostSteps.stopErr
}

//@ summary time.Sleep
func sumSleep(d time.Duration) { ghostSteps.waits++ }

// contract_startSteps: lnd is connected to within the attempts configured, then
// the server is started, once.
//@ deductive C27 (*Boltnd).Start
//@ uses sumConnect sumServerStart sumSleep
func contract_startSteps(started int32, retries uint8, wait time.Duration, startErr error) {
	g := &envSteps{lnd: new(lndclient.GrpcLndServices), startErr: startErr}
	ghostSteps = g
	b := &Boltnd{started: started, cfg: &Config{LNDRetires: retries, LNDWait: wait}, rpcServer: new(rpcserver.Server)}
	err := b.Start()
	if started != 0 {
		verifvc.Ensures("already started", err != nil && g.attempts == 0 && len(g.started) == 0)
		return
	}
	verifvc.Ensures("can't be started again", b.started != 0)
	verifvc.Ensures("at least one attempt", g.attempts >= 1 && g.attempts <= int(retries)+1)
	verifvc.Ensures("no attempt after a success", verifvc.Forall(0, g.attempts-1, func(i int) bool { return verifvc.Fails("connect", i) != nil }))
	if cerr := verifvc.Fails("connect", g.attempts-1); cerr != nil {
		verifvc.Ensures("all attempts used", g.attempts == int(retries)+1)
		verifvc.Ensures("not started without lnd", verifvc.Is(err, cerr) && len(g.started) == 0)
		return
	}
	verifvc.Ensures("server started once, with lnd", len(g.started) == 1 && g.started[0] == &g.lnd.LndServices)
	verifvc.Ensures("fails when the server does", (err == nil) == (startErr == nil))
}

// inv_attempts: every attempt so far has failed.
//@ invariant (*Boltnd).Start
func inv_attempts(i int) bool {
	g := ghostSteps
	return g.attempts == i && verifvc.Forall(0, i, func(j int) bool { return verifvc.Fails("connect", j) != nil })
}

// inv_lastError: the error of the last attempt is kept.
//@ invariant (*Boltnd).Start
func inv_lastError(i int, err error) bool {
	return i <= 0 || err == verifvc.Fails("connect", i-1)
}

// contract_stopSteps: the server is stopped once, lnd's connection closed after
// it.
//@ deductive C27 (*Boltnd).Stop
//@ uses sumServerStop
func contract_stopSteps(stopped int32, stopErr error) {
	g := &envSteps{stopErr: stopErr}
	ghostSteps = g
	b := &Boltnd{stopped: stopped, cfg: &Config{}, rpcServer: new(rpcserver.Server)}
	err := b.Stop()
	if stopped != 0 {
		verifvc.Ensures("already stopped", err != nil && g.stops == 0)
		return
	}
	verifvc.Ensures("can't be stopped again", b.stopped != 0)
	verifvc.Ensures("server stopped once", g.stops == 1 && (err == nil) == (stopErr == nil))
}

// contract_requestShutdown: the closure configured is called, if there is one.
//@ contract C21 C28 (*Boltnd).requestShutdown
func contract_requestShutdown(fails error, given bool) {
	told := 0
	b := &Boltnd{cfg: &Config{}}
	if given {
		b.cfg.RequestShutdown = func() { told++ }
	}
	b.requestShutdown(fails)
	verifvc.Ensures("told once", told == 1 == given && (given || told == 0))
}
