package lnwire

import (
	"bytes"
	"io"
	"sort"

	"github.com/carlakc/boltnd/verifvc"
	"github.com/lightningnetwork/lnd/lntypes"
	"github.com/lightningnetwork/lnd/tlv"
)

// ghostStream is what a decoded stream holds: the records the decoder knows,
// and those that are in the stream.
type ghostStream struct {
	known []tlv.Record
	raw   []rawRec
	err   error
}

var ghostDecode *ghostStream

//@ summary github.com/lightningnetwork/lnd/tlv.NewStream
func sumStream(records ...tlv.Record) (*tlv.Stream, error) {
	verifvc.Ensures("known records in ascending order", verifvc.Forall(1, len(records), func(i int) bool {
		return records[i-1].Type() < records[i].Type()
	}))
	ghostDecode.known = records
	return new(tlv.Stream), nil
}

// sumStreamDecode is the decoding of a stream whose records are known: each
// record is given to its decoder if it has one and kept otherwise.
//@ summary (*github.com/lightningnetwork/lnd/tlv.Stream).DecodeWithParsedTypes
func sumStreamDecode(s *tlv.Stream, r io.Reader) (tlv.TypeMap, error) {
	g := ghostDecode
	if g.err != nil {
		return nil, g.err
	}
	m := tlv.TypeMap{}
	for _, x := range g.raw {
		var rec *tlv.Record
		for i := range g.known {
			if uint64(g.known[i].Type()) == x.typ {
				rec = &g.known[i]
				break
			}
		}
		if rec == nil {
			m[tlv.Type(x.typ)] = x.val
			continue
		}
		if err := rec.Decode(bytes.NewReader(x.val), uint64(len(x.val))); err != nil {
			return nil, err
		}
		m[tlv.Type(x.typ)] = nil
	}
	return m, nil
}

// sumDecodeReply is decodeReplyPath, which decodeReply's contracts are about.
//@ summary github.com/carlakc/boltnd/lnwire.decodeReplyPath
func sumDecodeReply(r io.Reader, val interface{}, _ *[8]byte, l uint64) error {
	b := make([]byte, l)
	if _, err := io.ReadFull(r, b); err != nil {
		return err
	}
	if err := verifvc.Fails("decode reply path", b); err != nil {
		return err
	}
	verifvc.Fn(val.(*ReplyPath), "decode reply path", b)
	return nil
}

// sumSliceStable is a stable sort.
//@ summary sort.SliceStable
func sumSliceStable(v interface{}, less func(i, j int) bool) {
	s := v.([]*FinalHopPayload)
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

var _ = sort.SliceStable

// contract_decodeTwo: a payload of two records, whatever they are: the reply
// path, the data and the records from 64 in ascending order.
//@ deductive C09 C10 DecodeOnionMessagePayload (*ReplyPath).record
//@ uses sumStream sumStreamDecode sumDecodeReply sumSliceStable
func contract_decodeTwo(b []byte, t0, t1 uint64, v0, v1 []byte, err error) {
	verifvc.Requires(t0 < t1 && v0 != nil && v1 != nil)
	ghostDecode = &ghostStream{raw: []rawRec{{t0, v0}, {t1, v1}}, err: err}
	got, derr := DecodeOnionMessagePayload(b)
	if err != nil {
		verifvc.Ensures("malformed stream rejected", got == nil && verifvc.Is(derr, err))
		return
	}
	specDecoded(got, derr, ghostDecode.raw)
}

// specDecoded says that p is the payload of some records.
func specDecoded(p *OnionMessagePayload, err error, recs []rawRec) {
	var reply *ReplyPath
	var data []byte
	var finals []*FinalHopPayload
	for _, x := range recs {
		switch {
		case x.typ == 2:
			if verifvc.Fails("decode reply path", x.val) != nil {
				verifvc.Ensures("bad reply path rejected", p == nil && err != nil)
				return
			}
			reply = new(ReplyPath)
			verifvc.Fn(reply, "decode reply path", x.val)
		case x.typ == 4:
			data = x.val
		case x.typ >= 64:
			finals = append(finals, &FinalHopPayload{TLVType: tlvT(x.typ), Value: x.val})
		}
	}
	verifvc.Ensures("decodes", err == nil && p != nil)
	verifvc.Ensures("the reply path", verifvc.Eq(p.ReplyPath, reply))
	verifvc.Ensures("the data", bytes.Equal(p.EncryptedData, data))
	verifvc.Ensures("every record from 64, in ascending order", verifvc.Eq(p.FinalHopPayloads, finals))
}

// contract_decodeThree: the same of three records.
//@ deductive C09 C10 DecodeOnionMessagePayload (*ReplyPath).record
//@ uses sumStream sumStreamDecode sumDecodeReply sumSliceStable
func contract_decodeThree(b []byte, t0, t1, t2 uint64, v0, v1, v2 []byte) {
	verifvc.Requires(t0 < t1 && t1 < t2 && t0 < t2 && v0 != nil && v1 != nil && v2 != nil)
	ghostDecode = &ghostStream{raw: []rawRec{{t0, v0}, {t1, v1}, {t2, v2}}}
	got, err := DecodeOnionMessagePayload(b)
	specDecoded(got, err, ghostDecode.raw)
}

// contract_decodeNone: and of none.
//@ deductive C09 C10 DecodeOnionMessagePayload
//@ uses sumStream sumStreamDecode sumDecodeReply sumSliceStable
func contract_decodeNone(b []byte) {
	ghostDecode = &ghostStream{}
	got, err := DecodeOnionMessagePayload(b)
	specDecoded(got, err, nil)
}

// ghostRoot is what a root is made of: the records of a stream.
type ghostRootOf struct {
	raw  []rawRec
	err  error
	root lntypes.Hash
	made int
}

var ghostRoot *ghostRootOf

// sumMerkleOf is the root of records, whatever order they are given in.
//@ summary github.com/carlakc/boltnd/lnwire.MerkleRoot
func sumMerkleOf(records []tlv.Record) (lntypes.Hash, error) {
	g := ghostRoot
	g.made++
	sumSortRecords(records)
	verifvc.Ensures("each record", len(records) == len(g.raw))
	for i, x := range g.raw {
		verifvc.Ensures("its type", uint64(records[i].Type()) == x.typ)
		var b bytes.Buffer
		err := records[i].Encode(&b)
		verifvc.Ensures("its value as it was sent", err == nil && bytes.Equal(b.Bytes(), x.val))
		verifvc.Ensures("its size", records[i].Size() == uint64(len(x.val)))
	}
	if g.err != nil {
		return lntypes.ZeroHash, g.err
	}
	return g.root, nil
}

// contract_decodeRootTwo: the root of a stream of two records, whatever they
// are, is that of these records as they were sent.
//@ deductive C02 C01 decodeMerkleRoot unknownRecordsFromParsed
//@ uses sumStream sumStreamDecode sumMerkleOf
func contract_decodeRootTwo(b []byte, t0, t1 uint64, v0, v1 []byte, err, rootErr error, want lntypes.Hash) {
	verifvc.Requires(t0 < t1 && v0 != nil && v1 != nil)
	ghostDecode = &ghostStream{raw: []rawRec{{t0, v0}, {t1, v1}}, err: err}
	ghostRoot = &ghostRootOf{raw: ghostDecode.raw, err: rootErr, root: want}
	specDecodedRoot(decodeMerkleRoot(b))
}

// contract_decodeRootThree: the same of three.
//@ deductive C02 C01 decodeMerkleRoot unknownRecordsFromParsed
//@ uses sumStream sumStreamDecode sumMerkleOf
func contract_decodeRootThree(b []byte, t0, t1, t2 uint64, v0, v1, v2 []byte, want lntypes.Hash) {
	verifvc.Requires(t0 < t1 && t1 < t2 && t0 < t2 && v0 != nil && v1 != nil && v2 != nil)
	ghostDecode = &ghostStream{raw: []rawRec{{t0, v0}, {t1, v1}, {t2, v2}}}
	ghostRoot = &ghostRootOf{raw: ghostDecode.raw, root: want}
	specDecodedRoot(decodeMerkleRoot(b))
}

func specDecodedRoot(root lntypes.Hash, err error) {
	g := ghostRoot
	switch {
	case ghostDecode.err != nil:
		verifvc.Ensures("malformed stream rejected", root == lntypes.ZeroHash && verifvc.Is(err, ghostDecode.err))
	case g.err != nil:
		verifvc.Ensures("no root", root == lntypes.ZeroHash && verifvc.Is(err, g.err))
	default:
		verifvc.Ensures("the root of the records", err == nil && g.made == 1 && root == g.root)
	}
}
