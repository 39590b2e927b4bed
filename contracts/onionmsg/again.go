package onionmsg

import (
	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/verifvc"
	"github.com/lightninglabs/lndclient"
)

// contract_customAgain: a message made for one peer stays as it was while
// those for others are made.
//@ bounded C11 customOnionMessage n=500
func contract_customAgain(peer, blinding, otherPeer, otherBlinding *btcec.PublicKey, blob, otherBlob []byte) {
	verifvc.Requires(peer != nil && blinding != nil && otherPeer != nil && otherBlinding != nil)
	m, err := customOnionMessage(peer, lnwire.NewOnionMessage(blinding, blob))
	kept := verifvc.Clone(m)
	_, _ = customOnionMessage(otherPeer, lnwire.NewOnionMessage(otherBlinding, otherBlob))
	verifvc.Ensures("message as made", err != nil || verifvc.Eq(m, kept))
}

func gen_contract_customAgain(r *verifvc.Rand) []interface{} {
	return []interface{}{r.Key(), r.Key(), r.Key(), r.Key(), r.Data(400), r.Data(400)}
}

// contract_SendMessageAgain: every message is sent as it would be if it were
// the first, whichever was sent before it and whoever was connected then.
//@ bounded C22 (*Messenger).SendMessage (*Messenger).lookupAndConnect (*Messenger).findPeer multiHopPath n=300
func contract_SendMessageAgain(first, second, third sendArgs, attempts int) {
	e := &envLnd{listFails: -1}
	m := &Messenger{lnd: e, lookupPeerAttempts: attempts, lookupPeerBackoff: 1}
	for _, a := range []sendArgs{first, second, third} {
		checkSend(m, e, a.peer, a.theirs, a.destKey, a.reply, a.finals, a.direct, a.others, a.connected, attempts)
	}
}

type sendArgs struct {
	peer      *btcec.PublicKey
	theirs    []*btcec.PublicKey
	destKey   *btcec.PrivateKey
	reply     *lnwire.ReplyPath
	finals    []*lnwire.FinalHopPayload
	direct    bool
	others    []lndclient.Peer
	connected int
}

func gen_contract_SendMessageAgain(r *verifvc.Rand) []interface{} {
	var out []interface{}
	for i := 0; i < 3; i++ {
		g := gen_contract_SendMessage(r)
		a := sendArgs{g[0].(*btcec.PublicKey), g[1].([]*btcec.PublicKey), g[2].(*btcec.PrivateKey), nil, nil, g[5].(bool), g[6].([]lndclient.Peer), g[7].(int)}
		a.reply, _ = g[3].(*lnwire.ReplyPath)
		a.finals, _ = g[4].([]*lnwire.FinalHopPayload)
		if i > 0 && r.Bool() {
			before := out[i-1].(sendArgs)
			a.peer, a.theirs = before.peer, before.theirs
		}
		out = append(out, a)
	}
	verifvc.FailOneIn(40)
	return append(out, r.Intn(5))
}
