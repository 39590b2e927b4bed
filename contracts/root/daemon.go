package boltnd

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"errors"
	"math/big"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/rpcserver"
	"github.com/carlakc/boltnd/verifvc"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/lnrpc"
	"github.com/lightningnetwork/lnd/lnrpc/verrpc"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
	"gopkg.in/macaroon-bakery.v2/bakery"
)

// envLnd is an lnd node: it answers what connecting to it asks, after failing
// a number of times.
type envLnd struct {
	lnrpc.UnimplementedLightningServer
	lnrpc.UnimplementedStateServer
	verrpc.UnimplementedVersionerServer

	failures int32
	attempts int32
	infos    int32
	open     int32
	subs     int32
	nodeKey  string
	badKey   bool
	times    []time.Time
	mu       sync.Mutex
}

func (e *envLnd) SubscribeState(_ *lnrpc.SubscribeStateRequest, s lnrpc.State_SubscribeStateServer) error {
	<-s.Context().Done()
	return nil
}

func (e *envLnd) GetInfo(context.Context, *lnrpc.GetInfoRequest) (*lnrpc.GetInfoResponse, error) {
	n := atomic.AddInt32(&e.infos, 1)
	if atomic.LoadInt32(&e.attempts) <= e.failures {
		atomic.AddInt32(&e.attempts, 1)
		e.mu.Lock()
		e.times = append(e.times, time.Now())
		e.mu.Unlock()
		if n <= e.failures {
			return nil, errors.New("not yet")
		}
		return e.info(), nil
	}
	return e.info(), nil
}

func (e *envLnd) info() *lnrpc.GetInfoResponse {
	k := e.nodeKey
	if e.badKey && atomic.LoadInt32(&e.infos) > e.failures+1 {
		k = "05" + k[2:]
	}
	return &lnrpc.GetInfoResponse{IdentityPubkey: k, Chains: []*lnrpc.Chain{{Chain: "bitcoin", Network: "regtest"}}, SyncedToChain: true}
}

func (e *envLnd) GetVersion(context.Context, *verrpc.VersionRequest) (*verrpc.Version, error) {
	return &verrpc.Version{AppMinor: 15, BuildTags: MinimumLNDVersion.BuildTags}, nil
}

func (e *envLnd) SubscribeCustomMessages(_ *lnrpc.SubscribeCustomMessagesRequest, s lnrpc.Lightning_SubscribeCustomMessagesServer) error {
	atomic.AddInt32(&e.subs, 1)
	<-s.Context().Done()
	return nil
}

type countConn struct {
	net.Conn
	e    *envLnd
	once sync.Once
}

func (c *countConn) Close() error {
	c.once.Do(func() { atomic.AddInt32(&c.e.open, -1) })
	return c.Conn.Close()
}

var envCert = func() tls.Certificate {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "lnd"}, NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<33, 0), DNSNames: []string{"lnd"}}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
}()

// pipeListener hands out the ends of pipes.
type pipeListener struct {
	c    chan net.Conn
	done chan struct{}
	once sync.Once
}

func (p *pipeListener) Accept() (net.Conn, error) {
	select {
	case c := <-p.c:
		return c, nil
	case <-p.done:
		return nil, errors.New("closed")
	}
}

func (p *pipeListener) Close() error {
	p.once.Do(func() { close(p.done) })
	return nil
}

func (p *pipeListener) Addr() net.Addr { return strAddr("pipe") }

func (e *envLnd) serve() (*lndclient.LndServicesConfig, func()) {
	l := &pipeListener{c: make(chan net.Conn), done: make(chan struct{})}
	s := grpc.NewServer(grpc.Creds(credentials.NewServerTLSFromCert(&envCert)))
	lnrpc.RegisterLightningServer(s, e)
	lnrpc.RegisterStateServer(s, e)
	verrpc.RegisterVersionerServer(s, e)
	go s.Serve(l)
	return &lndclient.LndServicesConfig{
		LndAddress: "passthrough:///lnd", Insecure: true, Network: lndclient.NetworkRegtest,
		CustomMacaroonHex: hex.EncodeToString([]byte("macaroon")), CheckVersion: MinimumLNDVersion,
		Dialer: func(ctx context.Context, _ string) (net.Conn, error) {
			a, b := net.Pipe()
			select {
			case l.c <- b:
			case <-l.done:
				return nil, errors.New("closed")
			case <-ctx.Done():
				return nil, ctx.Err()
			}
			atomic.AddInt32(&e.open, 1)
			return &countConn{Conn: a, e: e}, nil
		},
	}, s.Stop
}

func eventually(f func() bool) bool {
	for i := 0; i < 2000; i++ {
		if f() {
			return true
		}
		time.Sleep(time.Millisecond)
	}
	return false
}

// contract_daemon: connects with as many attempts as it may, once, and lets go
// of the connection when stopped.
//@ bounded C27 C30 (*Boltnd).Start (*Boltnd).Stop NewBoltnd (*Boltnd).Permissions (*Boltnd).RegisterGrpcSubserver n=60
func contract_daemon(retries uint8, failures int32, wait time.Duration, starts, stops int, badKey bool) {
	e := &envLnd{failures: failures, badKey: badKey, nodeKey: hex.EncodeToString(verifvc.KeyN(1).PubKey().SerializeCompressed())}
	client, stop := e.serve()
	defer stop()
	perms := map[string][]bakery.Op{}
	for m, ops := range rpcserver.RPCServerPermissions {
		perms[m] = append([]bakery.Op{}, ops...)
	}
	b, err := NewBoltnd(OptionLNDClient(client), func(c *Config) error {
		c.LNDRetires, c.LNDWait = retries, wait
		return nil
	})
	verifvc.Ensures("created", err == nil)
	verifvc.Ensures("permissions of the API", verifvc.Eq(b.Permissions(), perms))
	s := grpc.NewServer()
	verifvc.Ensures("registers", b.RegisterGrpcSubserver(s) == nil)
	served := s.GetServiceInfo()
	verifvc.Ensures("one service", len(served) == 1)
	n := 0
	for name, i := range served {
		for _, m := range i.Methods {
			n++
			verifvc.Ensures("permission for each method served", len(b.Permissions()["/"+name+"/"+m.Name]) > 0)
		}
	}
	verifvc.Ensures("no other permissions", n == len(b.Permissions()) && n == len(offersrpc.Offers_ServiceDesc.Methods)+len(offersrpc.Offers_ServiceDesc.Streams))
	race := func(n int, f func() error) int {
		var ok int32
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if f() == nil {
					atomic.AddInt32(&ok, 1)
				}
			}()
		}
		wg.Wait()
		return int(ok)
	}
	if starts == 0 {
		verifvc.Ensures("one stop succeeds without a start", race(stops, b.Stop) == 1)
		verifvc.Ensures("no connection", atomic.LoadInt32(&e.infos) == 0)
		return
	}
	got := race(starts, b.Start)
	connects := failures <= int32(retries)
	tries := int32(retries) + 1
	if connects {
		tries = failures + 1
	}
	infos := atomic.LoadInt32(&e.infos)
	switch {
	case !connects:
		verifvc.Ensures("not started without a connection", got == 0)
		verifvc.Ensures("every attempt made", infos == tries)
	case badKey:
		verifvc.Ensures("not started if the API can't be", got == 0)
		verifvc.Ensures("stops trying once connected", infos == tries+1)
	default:
		verifvc.Ensures("started once", got == 1)
		verifvc.Ensures("stops trying once connected", infos == tries+1)
	}
	verifvc.Ensures("waits in between", specApart(e.times, wait))
	if connects {
		verifvc.Ensures("stays connected", eventually(func() bool { return atomic.LoadInt32(&e.open) == 1 }))
	}
	verifvc.Ensures("no second start", b.Start() != nil)
	verifvc.Ensures("no second connection", atomic.LoadInt32(&e.infos) == infos)
	verifvc.Ensures("one stop succeeds", race(stops, b.Stop) == 1)
	verifvc.Ensures("connection closed", eventually(func() bool { return atomic.LoadInt32(&e.open) == 0 }))
	verifvc.Ensures("API stopped", b.rpcServer.Stop() != nil)
	verifvc.Ensures("no second stop", b.Stop() != nil)
	verifvc.Ensures("permissions never change", verifvc.Eq(b.Permissions(), perms))
}

func specApart(ts []time.Time, wait time.Duration) bool {
	for i := 1; i < len(ts); i++ {
		if ts[i].Sub(ts[i-1]) < wait {
			return false
		}
	}
	return true
}

func gen_contract_daemon(r *verifvc.Rand) []interface{} {
	retries := r.Intn(5)
	if r.Coin(12) {
		retries = 253 + r.Intn(3)
	}
	failures := r.Intn(retries + 3)
	if r.Coin(4) {
		failures = retries + r.Intn(2)
	}
	wait := time.Duration(r.Intn(3)) * time.Millisecond
	starts := 1 + r.Intn(3)
	if r.Coin(8) {
		starts = 0
	}
	return []interface{}{uint8(retries), int32(failures), wait, starts, 1 + r.Intn(3), r.Coin(6)}
}
