package rpcserver

import (
	"context"

	"github.com/btcsuite/btcd/btcutil/bech32"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/verifvc"
	sphinx "github.com/lightningnetwork/lightning-onion"
	"google.golang.org/protobuf/proto"
)

// contract_decodeAPIAgain: what one server reports is the offer in the string
// it is given, whatever strings it was given before; and what it reported
// stays as it was.
//@ bounded C06 C24 (*Server).DecodeOffer n=600
func contract_decodeAPIAgain(first, second string) {
	s := readyServer(&envMessenger{}, &envRoutes{})
	decode := func(s *Server, str string) (*offersrpc.DecodeOfferResponse, error) {
		return s.DecodeOffer(context.Background(), &offersrpc.DecodeOfferRequest{Offer: str})
	}
	r1, err1 := decode(s, first)
	var kept proto.Message
	if err1 == nil {
		kept = proto.Clone(r1)
	}
	r2, err2 := decode(s, second)
	w2, werr2 := decode(readyServer(&envMessenger{}, &envRoutes{}), second)
	verifvc.Ensures("rejected whatever came before", (err2 == nil) == (werr2 == nil))
	verifvc.Ensures("the offer in the string it is given", err2 != nil || proto.Equal(r2, w2))
	verifvc.Ensures("what was reported stays as it was", err1 != nil || proto.Equal(r1, kept))
	r3, err3 := decode(s, first)
	verifvc.Ensures("the same when asked again", (err3 == nil) == (err1 == nil) && (err3 != nil || proto.Equal(r3, kept)))
}

func gen_contract_decodeAPIAgain(r *verifvc.Rand) []interface{} {
	descs := []string{"a first description", "another description", "a first descriptioN"}
	keys := [][]byte{r.Key().SerializeCompressed()[1:], r.Key().SerializeCompressed()[1:]}
	nums := []byte{byte(1 + r.Intn(255)), byte(1 + r.Intn(255))}
	pick := func(same bool, i int) int {
		if same {
			return 0
		}
		return i
	}
	sameAmount, sameDesc, sameExpiry, sameKey := r.Bool(), !r.Coin(3), r.Bool(), r.Coin(4)
	str := func(i int) string {
		b := verifvc.Concat(
			verifvc.OptTLV(nums[0]%2 == 0 || i == 1 && !sameAmount, 8, []byte{nums[pick(sameAmount, i)]}),
			verifvc.TLV(10, []byte(descs[pick(sameDesc, i*(1+int(nums[1])%2))])),
			verifvc.OptTLV(nums[0]%3 == 0, 14, []byte{nums[pick(sameExpiry, i)]}),
			verifvc.OptTLV(nums[0]%5 == 0, 20, []byte("an issuer with a long name")),
			verifvc.TLV(30, keys[pick(sameKey, i)]))
		d, err := bech32.ConvertBits(b, 8, 5, true)
		if err != nil {
			panic(err)
		}
		out := "lno1"
		for _, v := range d {
			out += string("qpzry9x8gf2tvdw0s3jn54khce6mua7l"[v])
		}
		return out
	}
	return []interface{}{str(0), str(1)}
}

// contract_composeAgain: what was composed for one caller stays as it was
// while others are.
//@ bounded C24 composeBlindedRoute composeReplyPath composeDecodeOfferResponse n=600
func contract_composeAgain(route, other *sphinx.BlindedPath, reply, otherReply *lnwire.ReplyPath) {
	p := composeBlindedRoute(route)
	kept := proto.Clone(p)
	r := composeReplyPath(reply)
	var keptReply proto.Message
	if r != nil {
		keptReply = proto.Clone(r)
	}
	composeBlindedRoute(other)
	composeReplyPath(otherReply)
	verifvc.Ensures("route as composed", proto.Equal(p, kept))
	verifvc.Ensures("reply path as composed", r == nil || proto.Equal(r, keptReply))
}

func gen_contract_composeAgain(r *verifvc.Rand) []interface{} {
	return []interface{}{gen_contract_composeRoute(r)[0], gen_contract_composeRoute(r)[0], genReplyPath(r), genReplyPath(r)}
}

// contract_parseAgain: what was parsed for one caller stays as it was while
// the requests of others are parsed.
//@ bounded C23 parseSendOnionMessageRequest parseReplyPath parseGenerateBlindedRouteRequest n=600
func contract_parseAgain(req, other *offersrpc.SendOnionMessageRequest, bits, otherBits []uint64) {
	verifvc.Requires(specNoNilHops(req.BlindedDestination) && specNoNilHops(req.ReplyPath))
	verifvc.Requires(specNoNilHops(other.BlindedDestination) && specNoNilHops(other.ReplyPath))
	got, err := parseSendOnionMessageRequest(req)
	if err == nil {
		kept := verifvc.Clone(got)
		_, _ = parseSendOnionMessageRequest(other)
		verifvc.Ensures("request as parsed", verifvc.Eq(got, kept))
		again, err := parseSendOnionMessageRequest(req)
		verifvc.Ensures("the same when parsed again", err == nil && verifvc.Eq(again.Peer, got.Peer) &&
			verifvc.Eq(again.BlindedDestination, got.BlindedDestination) && verifvc.Eq(again.ReplyPath, got.ReplyPath) &&
			len(again.FinalPayloads) == len(got.FinalPayloads) && again.DirectConnect == got.DirectConnect)
	}
	fs, err := parseGenerateBlindedRouteRequest(&offersrpc.GenerateBlindedRouteRequest{Features: bits})
	if err == nil {
		kept := verifvc.Clone(fs)
		_, _ = parseGenerateBlindedRouteRequest(&offersrpc.GenerateBlindedRouteRequest{Features: otherBits})
		verifvc.Ensures("features as parsed", verifvc.Eq(fs, kept))
	}
}

func gen_contract_parseAgain(r *verifvc.Rand) []interface{} {
	return []interface{}{gen_contract_parseSend(r)[0], gen_contract_parseSend(r)[0],
		gen_contract_routeAPI(r)[0], gen_contract_routeAPI(r)[0]}
}
