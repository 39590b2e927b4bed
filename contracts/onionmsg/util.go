package onionmsg

import (
	"bytes"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/verifvc"
	"github.com/btcsuite/btcd/chaincfg"
	sphinx "github.com/lightningnetwork/lightning-onion"
	"github.com/lightningnetwork/lnd/tlv"
)

type tlvT = tlv.Type

func newRouter(key sphinx.SingleKeyECDH) *sphinx.Router {
	r := sphinx.NewRouter(key, &chaincfg.RegressionNetParams, sphinx.NewMemoryReplayLog())
	if err := r.Start(); err != nil {
		panic(err)
	}
	return r
}

func encodePacket(p *sphinx.OnionPacket) ([]byte, error) {
	var w bytes.Buffer
	err := p.Encode(&w)
	return w.Bytes(), err
}

func decodePacket(b []byte) (*sphinx.OnionPacket, error) {
	p := new(sphinx.OnionPacket)
	return p, p.Decode(bytes.NewReader(b))
}

func encodePath(r *verifvc.Rand, path *sphinx.PaymentPath) []byte {
	var kb [32]byte
	r.Read(kb[:])
	k, _ := btcec.PrivKeyFromBytes(kb[:])
	pkt, err := sphinx.NewOnionPacket(path, k, nil, sphinx.DeterministicPacketFiller)
	if err != nil {
		panic(err)
	}
	b, err := encodePacket(pkt)
	if err != nil {
		panic(err)
	}
	return b
}
