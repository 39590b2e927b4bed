package rpcserver

import (
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	"io"
	"time"

	"github.com/btcsuite/btcd/btcec/v2/schnorr"
	"github.com/btcsuite/btcd/btcutil/bech32"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/offers"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/verifvc"
	sphinx "github.com/lightningnetwork/lightning-onion"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
	"google.golang.org/grpc/codes"
)

// contract_composeOffer: each of the offer's fields, unset ones unset.
//@ contract C24 composeDecodeOfferResponse
func contract_composeOffer(offer *lnwire.Offer) {
	verifvc.Requires(offer != nil)
	// lnd's constructors always set the embedded vector.
	verifvc.Requires(offer.Features == nil || offer.Features.RawFeatureVector != nil)
	resp, err := composeDecodeOfferResponse(offer)
	var feats []byte
	if offer.Features != nil {
		var b bytes.Buffer
		ferr := offer.Features.Encode(&b)
		if ferr != nil {
			verifvc.Ensures("features can't be encoded", err != nil && verifvc.Code(err) == codes.Internal && resp == nil)
			return
		}
		feats = b.Bytes()
	}
	verifvc.Ensures("no error", err == nil && resp != nil && resp.Offer != nil)
	o := resp.Offer
	verifvc.Ensures("amount", o.MinAmountMsat == uint64(offer.MinimumAmount))
	verifvc.Ensures("description", o.Description == offer.Description)
	verifvc.Ensures("issuer", o.Issuer == offer.Issuer)
	verifvc.Ensures("quantities", o.MinQuantity == offer.QuantityMin && o.MaxQuantity == offer.QuantityMax)
	verifvc.Ensures("features", verifvc.Eq(o.Features, feats))
	if offer.Expiry.IsZero() {
		verifvc.Ensures("no expiry", o.ExpiryUnixSeconds == 0)
	} else {
		verifvc.Ensures("expiry", o.ExpiryUnixSeconds == uint64(offer.Expiry.Unix()))
	}
	if offer.NodeID == nil {
		verifvc.Ensures("no node id", o.NodeId == "")
	} else {
		verifvc.Ensures("node id", o.NodeId == hex.EncodeToString(schnorr.SerializePubKey(offer.NodeID)))
	}
	if offer.Signature == nil {
		verifvc.Ensures("no signature", o.Signature == "")
	} else {
		verifvc.Ensures("signature", o.Signature == hex.EncodeToString(offer.Signature[:]))
	}
}

// contract_composeRoute: every hop of a route, which parses back to the same
// path.
//@ contract C24 composeBlindedRoute parseReplyPath
func contract_composeRoute(route *sphinx.BlindedPath) {
	verifvc.Requires(route != nil && route.IntroductionPoint != nil && route.BlindingPoint != nil)
	verifvc.Requires(len(route.BlindedHops) == len(route.EncryptedData))
	verifvc.Requires(verifvc.Forall(0, len(route.BlindedHops), func(i int) bool { return route.BlindedHops[i] != nil }))
	p := composeBlindedRoute(route)
	verifvc.Ensures("introduction", bytes.Equal(p.IntroductionNode, route.IntroductionPoint.SerializeCompressed()))
	verifvc.Ensures("blinding", bytes.Equal(p.BlindingPoint, route.BlindingPoint.SerializeCompressed()))
	verifvc.Ensures("as many hops", len(p.Hops) == len(route.BlindedHops))
	verifvc.Ensures("each hop", verifvc.Forall(0, len(p.Hops), func(i int) bool {
		return p.Hops[i] != nil && bytes.Equal(p.Hops[i].BlindedNodeId, route.BlindedHops[i].SerializeCompressed()) &&
			bytes.Equal(p.Hops[i].EncryptedData, route.EncryptedData[i])
	}))
}

func gen_contract_composeRoute(r *verifvc.Rand) []interface{} {
	p := &sphinx.BlindedPath{IntroductionPoint: r.Key(), BlindingPoint: r.Key()}
	for i := r.Count(6); i > 0; i-- {
		p.BlindedHops = append(p.BlindedHops, r.Key())
		p.EncryptedData = append(p.EncryptedData, r.Data(80))
	}
	return []interface{}{p}
}

// contract_routeRoundTrip: a route handed out can be handed back.
//@ contract C24 C23 composeBlindedRoute parseReplyPath
func contract_routeRoundTrip(route *sphinx.BlindedPath) {
	verifvc.Requires(route != nil && route.IntroductionPoint != nil && route.BlindingPoint != nil)
	verifvc.Requires(len(route.BlindedHops) == len(route.EncryptedData))
	verifvc.Requires(verifvc.Forall(0, len(route.BlindedHops), func(i int) bool { return route.BlindedHops[i] != nil }))
	got, err := parseReplyPath(composeBlindedRoute(route))
	verifvc.Ensures("parses", err == nil)
	verifvc.Ensures("same keys", verifvc.Eq(got.FirstNodeID, route.IntroductionPoint) && verifvc.Eq(got.BlindingPoint, route.BlindingPoint))
	verifvc.Ensures("same number of hops", len(got.Hops) == len(route.BlindedHops))
	verifvc.Ensures("same hops", verifvc.Forall(0, len(got.Hops), func(i int) bool {
		return verifvc.Eq(got.Hops[i].BlindedNodeID, route.BlindedHops[i]) && bytes.Equal(got.Hops[i].EncryptedData, route.EncryptedData[i])
	}))
}

func gen_contract_routeRoundTrip(r *verifvc.Rand) []interface{} { return gen_contract_composeRoute(r) }

// contract_composeReply: every hop of a reply path, nothing without one.
//@ contract C24 C26 composeReplyPath
func contract_composeReply(reply *lnwire.ReplyPath) {
	verifvc.Requires(reply == nil || reply.FirstNodeID != nil && reply.BlindingPoint != nil)
	verifvc.Requires(reply == nil || verifvc.Forall(0, len(reply.Hops), func(i int) bool {
		return reply.Hops[i] != nil && reply.Hops[i].BlindedNodeID != nil
	}))
	p := composeReplyPath(reply)
	if reply == nil {
		verifvc.Ensures("no path", p == nil)
		return
	}
	verifvc.Ensures("introduction", bytes.Equal(p.IntroductionNode, reply.FirstNodeID.SerializeCompressed()))
	verifvc.Ensures("blinding", bytes.Equal(p.BlindingPoint, reply.BlindingPoint.SerializeCompressed()))
	verifvc.Ensures("as many hops", len(p.Hops) == len(reply.Hops))
	verifvc.Ensures("each hop", verifvc.Forall(0, len(p.Hops), func(i int) bool {
		return p.Hops[i] != nil && bytes.Equal(p.Hops[i].BlindedNodeId, reply.Hops[i].BlindedNodeID.SerializeCompressed()) &&
			bytes.Equal(p.Hops[i].EncryptedData, reply.Hops[i].EncryptedData)
	}))
}

func gen_contract_composeReply(r *verifvc.Rand) []interface{} {
	return []interface{}{genReplyPath(r)}
}

func genReplyPath(r *verifvc.Rand) *lnwire.ReplyPath {
	if r.Coin(4) {
		return nil
	}
	p := &lnwire.ReplyPath{FirstNodeID: r.Key(), BlindingPoint: r.Key()}
	for i := r.Count(5); i > 0; i-- {
		p.Hops = append(p.Hops, &lnwire.BlindedHop{BlindedNodeID: r.Key(), EncryptedData: r.Data(40)})
	}
	return p
}

// envMessenger is any onion messenger. What it is asked to do is recorded.
type envMessenger struct {
	onionmsg.OnionMessenger
	calls int
	sent  []*onionmsg.SendMessageRequest
	err   error
}

func (e *envMessenger) SendMessage(ctx context.Context, req *onionmsg.SendMessageRequest) error {
	e.calls++
	e.sent = append(e.sent, req)
	return e.err
}

// envRoutes is any route generator.
type envRoutes struct {
	calls    int
	features []lndwire.FeatureBit
	route    *sphinx.BlindedPath
	err      error
}

func (e *envRoutes) ReplyPath(ctx context.Context, features []lndwire.FeatureBit) (*sphinx.BlindedPath, error) {
	e.calls++
	e.features = features
	return e.route, e.err
}

func readyServer(m onionmsg.OnionMessenger, r *envRoutes) *Server {
	ready := make(chan struct{})
	close(ready)
	return &Server{ready: ready, quit: make(chan struct{}), onionMsgr: m, routeGenerator: r}
}

// contract_sendAPI: the request that was parsed is sent, and how that fails is
// told apart.
//@ contract C24 C23 (*Server).SendOnionMessage
func contract_sendAPI(req *offersrpc.SendOnionMessageRequest, fails error) {
	verifvc.Requires(req != nil && specNoNilHops(req.BlindedDestination) && specNoNilHops(req.ReplyPath))
	m := &envMessenger{err: fails}
	s := readyServer(m, &envRoutes{})
	resp, err := s.SendOnionMessage(context.Background(), req)
	want, perr := parseSendOnionMessageRequest(req)
	if perr != nil {
		verifvc.Ensures("invalid request", err != nil && resp == nil && verifvc.Code(err) == codes.InvalidArgument)
		verifvc.Ensures("nothing sent if invalid", m.calls == 0)
		return
	}
	verifvc.Ensures("sent once", m.calls == 1)
	verifvc.Ensures("sent to the peer", verifvc.Eq(m.sent[0].Peer, want.Peer))
	verifvc.Ensures("sent to the destination", verifvc.Eq(m.sent[0].BlindedDestination, want.BlindedDestination))
	verifvc.Ensures("sent with the reply path", verifvc.Eq(m.sent[0].ReplyPath, want.ReplyPath))
	verifvc.Ensures("sent with the payloads", len(m.sent[0].FinalPayloads) == len(want.FinalPayloads))
	verifvc.Ensures("sent as asked", m.sent[0].DirectConnect == want.DirectConnect)
	switch {
	case fails == nil:
		verifvc.Ensures("success", err == nil && resp != nil)
	case verifvc.Is(fails, onionmsg.ErrNoPath):
		verifvc.Ensures("no path", resp == nil && err != nil && verifvc.Code(err) == codes.NotFound)
	default:
		verifvc.Ensures("failure", resp == nil && err != nil && verifvc.Code(err) == codes.Internal)
	}
}

func gen_contract_sendAPI(r *verifvc.Rand) []interface{} {
	return []interface{}{gen_contract_parseSend(r)[0], r.Err()}
}

var _ = verifvc.Errors(onionmsg.ErrNoPath, onionmsg.ErrNoAddresses, onionmsg.ErrShuttingDown, errors.New("other"), context.Canceled, context.DeadlineExceeded, io.EOF)

// contract_routeAPI: the features asked for, and the route generated.
//@ contract C24 C23 (*Server).GenerateBlindedRoute
func contract_routeAPI(bits []uint64, route *sphinx.BlindedPath, fails error) {
	verifvc.Requires(route != nil && route.IntroductionPoint != nil && route.BlindingPoint != nil)
	verifvc.Requires(len(route.BlindedHops) == len(route.EncryptedData))
	verifvc.Requires(verifvc.Forall(0, len(route.BlindedHops), func(i int) bool { return route.BlindedHops[i] != nil }))
	g := &envRoutes{route: route, err: fails}
	s := readyServer(&envMessenger{}, g)
	resp, err := s.GenerateBlindedRoute(context.Background(), &offersrpc.GenerateBlindedRouteRequest{Features: bits})
	if verifvc.Exists(0, len(bits), func(i int) bool { return bits[i] > 65535 }) {
		verifvc.Ensures("invalid features", resp == nil && err != nil && verifvc.Code(err) == codes.InvalidArgument)
		verifvc.Ensures("nothing generated if invalid", g.calls == 0)
		return
	}
	verifvc.Ensures("generated once", g.calls == 1)
	verifvc.Ensures("as many features", len(g.features) == len(bits))
	verifvc.Ensures("the features asked for", verifvc.Forall(0, len(bits), func(i int) bool { return uint64(g.features[i]) == bits[i] }))
	if fails != nil {
		verifvc.Ensures("failure", resp == nil && err != nil && verifvc.Code(err) == codes.Internal)
		return
	}
	verifvc.Ensures("success", err == nil && resp != nil)
	verifvc.Ensures("the route generated", verifvc.Eq(resp.Route.IntroductionNode, route.IntroductionPoint.SerializeCompressed()) &&
		verifvc.Eq(resp.Route.BlindingPoint, route.BlindingPoint.SerializeCompressed()) && len(resp.Route.Hops) == len(route.BlindedHops))
}

func gen_contract_routeAPI(r *verifvc.Rand) []interface{} {
	var bits []uint64
	for i := r.Count(5); i > 0; i-- {
		b := uint64(r.Intn(300))
		switch {
		case r.Coin(10):
			b = []uint64{65534, 65535, 65536, 65537, 1<<64 - 1}[r.Intn(5)]
		}
		bits = append(bits, b)
	}
	return []interface{}{bits, gen_contract_composeRoute(r)[0], r.Err()}
}

// contract_notReady: a call made before the server is ready does nothing.
//@ contract C25 (*Server).waitForReady (*Server).SendOnionMessage (*Server).GenerateBlindedRoute (*Server).DecodeOffer
//@ uses sumDecodeStr
func contract_notReady(send *offersrpc.SendOnionMessageRequest, gen *offersrpc.GenerateBlindedRouteRequest, dec *offersrpc.DecodeOfferRequest) {
	verifvc.Requires(send != nil && gen != nil && dec != nil)
	m, g := &envMessenger{}, &envRoutes{}
	s := &Server{ready: make(chan struct{}), quit: make(chan struct{}), onionMsgr: m, routeGenerator: g}
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	r1, err := s.SendOnionMessage(ctx, send)
	verifvc.Ensures("send unavailable", r1 == nil && err != nil && verifvc.Code(err) == codes.Unavailable)
	r2, err := s.GenerateBlindedRoute(ctx, gen)
	verifvc.Ensures("route unavailable", r2 == nil && err != nil && verifvc.Code(err) == codes.Unavailable)
	r3, err := s.DecodeOffer(ctx, dec)
	verifvc.Ensures("decode unavailable", r3 == nil && err != nil && verifvc.Code(err) == codes.Unavailable)
	verifvc.Ensures("nothing used", m.calls == 0 && g.calls == 0)
}

func gen_contract_notReady(r *verifvc.Rand) []interface{} {
	return []interface{}{gen_contract_parseSend(r)[0],
		&offersrpc.GenerateBlindedRouteRequest{Features: gen_contract_routeAPI(r)[0].([]uint64)},
		&offersrpc.DecodeOfferRequest{Offer: r.Make("", 1).(string)}}
}

var _ = time.Now

// sumDecodeStr stands for the decoding of an offer string; see C06.
//@ summary github.com/carlakc/boltnd/offers.DecodeOfferStr
func sumDecodeStr(s string) (*lnwire.Offer, error) {
	if err := verifvc.Fails("decode", s); err != nil {
		return nil, err
	}
	o := new(lnwire.Offer)
	verifvc.Fn(o, "decode", s)
	// contract_decodeOffer: its features are made by lnd's constructor.
	verifvc.Requires(o.Features == nil || o.Features.RawFeatureVector != nil)
	return o, nil
}

// contract_decodeAPI: the offer in the string, or an error.
//@ contract C06 C24 (*Server).DecodeOffer
//@ uses sumDecodeStr
func contract_decodeAPI(str string) {
	s := readyServer(&envMessenger{}, &envRoutes{})
	resp, err := s.DecodeOffer(context.Background(), &offersrpc.DecodeOfferRequest{Offer: str})
	if str == "" {
		verifvc.Ensures("empty string", resp == nil && err != nil && verifvc.Code(err) == codes.InvalidArgument)
		return
	}
	offer, derr := offers.DecodeOfferStr(str)
	if derr != nil {
		verifvc.Ensures("rejected", resp == nil && err != nil)
		return
	}
	want, cerr := composeDecodeOfferResponse(offer)
	if cerr != nil {
		verifvc.Ensures("can't be reported", resp == nil && err != nil)
		return
	}
	verifvc.Ensures("reported", err == nil && resp != nil)
	verifvc.Ensures("the offer decoded", verifvc.Eq(resp.Offer.Description, want.Offer.Description) && resp.Offer.MinAmountMsat == want.Offer.MinAmountMsat &&
		resp.Offer.NodeId == want.Offer.NodeId && resp.Offer.Signature == want.Offer.Signature && resp.Offer.ExpiryUnixSeconds == want.Offer.ExpiryUnixSeconds &&
		resp.Offer.Issuer == want.Offer.Issuer && resp.Offer.MinQuantity == want.Offer.MinQuantity && resp.Offer.MaxQuantity == want.Offer.MaxQuantity &&
		bytes.Equal(resp.Offer.Features, want.Offer.Features))
}

func gen_contract_decodeAPI(r *verifvc.Rand) []interface{} {
	if r.Coin(10) {
		return []interface{}{""}
	}
	var b []byte
	if r.Bool() {
		b = append(b, verifvc.TLV(8, []byte{byte(1 + r.Intn(255))})...)
	}
	if !r.Coin(10) {
		b = append(b, verifvc.TLV(10, []byte("description"))...)
	}
	if r.Bool() {
		b = append(b, verifvc.TLV(12, []byte{byte(1 + r.Intn(255))})...)
	}
	if r.Bool() {
		b = append(b, verifvc.TLV(14, []byte{byte(1 + r.Intn(255)), byte(r.Intn(255))})...)
	}
	if r.Bool() {
		b = append(b, verifvc.TLV(20, []byte("issuer"))...)
	}
	if r.Bool() {
		b = append(b, verifvc.TLV(22, []byte{byte(1 + r.Intn(9))})...)
	}
	if r.Bool() {
		b = append(b, verifvc.TLV(24, []byte{byte(9 + r.Intn(9))})...)
	}
	if !r.Coin(10) {
		b = append(b, verifvc.TLV(30, r.Key().SerializeCompressed()[1:])...)
	}
	d, err := bech32.ConvertBits(b, 8, 5, true)
	if err != nil {
		panic(err)
	}
	s := "lno1"
	for _, v := range d {
		s += string("qpzry9x8gf2tvdw0s3jn54khce6mua7l"[v])
	}
	return []interface{}{s}
}
