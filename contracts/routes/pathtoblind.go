package routes

import (
	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/verifvc"
	sphinx "github.com/lightningnetwork/lightning-onion"
)

// envEncode is any encoder of route data.
func envEncode(d *lnwire.BlindedRouteData) ([]byte, error) {
	if err := verifvc.Fails("encode data", *d); err != nil {
		return nil, err
	}
	return specEncoded(*d), nil
}

func specEncoded(d lnwire.BlindedRouteData) []byte {
	var b []byte
	verifvc.Fn(&b, "encode data", d)
	return b
}

func specFails(d lnwire.BlindedRouteData) bool {
	return verifvc.Fails("encode data", d) != nil
}

// contract_createPathToBlind: every hop names the next node, the last one the
// destination path (with its blinding key) or nothing.
//@ contract C14 createPathToBlind
func contract_createPathToBlind(path []*btcec.PublicKey, start *blindedStart) {
	verifvc.Requires(len(path) > 0)
	n := len(path)
	hops, err := createPathToBlind(path, start, envEncode)
	fails := verifvc.Exists(0, n-1, func(i int) bool {
		return specFails(lnwire.BlindedRouteData{NextNodeID: path[i+1]})
	})
	if start != nil {
		fails = fails || specFails(lnwire.BlindedRouteData{NextNodeID: start.unblindedID, NextBlindingOverride: start.blindingPoint})
	}
	if fails {
		verifvc.Ensures("a failure to encode fails the route", err != nil && hops == nil)
		return
	}
	verifvc.Ensures("route created", err == nil)
	verifvc.Ensures("one hop per node", len(hops) == n)
	verifvc.Ensures("hop keys", verifvc.Forall(0, n, func(i int) bool {
		return hops[i] != nil && verifvc.Eq(hops[i].NodePub, path[i])
	}))
	verifvc.Ensures("each hop names the next node", verifvc.Forall(0, n-1, func(i int) bool {
		return verifvc.Eq(hops[i].Payload, specEncoded(lnwire.BlindedRouteData{NextNodeID: path[i+1]}))
	}))
	if start == nil {
		verifvc.Ensures("last hop carries no payload", len(hops[n-1].Payload) == 0)
		return
	}
	verifvc.Ensures("last hop names the blinded path", verifvc.Eq(hops[n-1].Payload, specEncoded(
		lnwire.BlindedRouteData{NextNodeID: start.unblindedID, NextBlindingOverride: start.blindingPoint})))
}

//@ invariant createPathToBlind
func inv_pathToBlind(i int, argPath []*btcec.PublicKey, argHops []*sphinx.BlindedPathHop) bool {
	return verifvc.Forall(0, i, func(j int) bool {
		return argHops[j] != nil && verifvc.Eq(argHops[j].NodePub, argPath[j])
	}) && verifvc.Forall(0, i-1, func(j int) bool {
		return verifvc.Eq(argHops[j].Payload, specEncoded(lnwire.BlindedRouteData{NextNodeID: argPath[j+1]}))
	}) && len(argHops[i-1].Payload) == 0
}

// The same where the hops are all made before their payloads.

//@ invariant createPathToBlind
func inv_hopsMade(i int, argPath []*btcec.PublicKey, argHops []*sphinx.BlindedPathHop) bool {
	return verifvc.Forall(0, i+1, func(j int) bool {
		return argHops[j] != nil && verifvc.Eq(argHops[j].NodePub, argPath[j]) && len(argHops[j].Payload) == 0
	})
}

//@ invariant createPathToBlind
func inv_allMade(argPath []*btcec.PublicKey, argHops []*sphinx.BlindedPathHop) bool {
	return verifvc.Forall(0, len(argPath), func(j int) bool {
		return argHops[j] != nil && verifvc.Eq(argHops[j].NodePub, argPath[j])
	})
}

//@ invariant createPathToBlind
func inv_payloads(i int, argPath []*btcec.PublicKey, argHops []*sphinx.BlindedPathHop) bool {
	return verifvc.Forall(0, i, func(j int) bool {
		return verifvc.Eq(argHops[j].Payload, specEncoded(lnwire.BlindedRouteData{NextNodeID: argPath[j+1]}))
	}) && verifvc.Forall(i, len(argPath), func(j int) bool { return len(argHops[j].Payload) == 0 })
}

// The same where the hops are appended one by one.

//@ invariant createPathToBlind
func inv_appended(i int, hops []*sphinx.BlindedPathHop, argPath []*btcec.PublicKey) bool {
	return len(hops) == i && inv_pathToBlind(i, argPath, hops)
}

func gen_contract_createPathToBlind(r *verifvc.Rand) []interface{} {
	verifvc.FailOneIn(25)
	var path []*btcec.PublicKey
	for i := r.Len(12); i >= 0; i-- {
		path = append(path, r.Key())
	}
	var s *blindedStart
	if r.Bool() {
		s = &blindedStart{unblindedID: r.Key(), blindingPoint: r.Key()}
	}
	return []interface{}{path, s}
}
