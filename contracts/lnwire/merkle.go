package lnwire

import (
	"bytes"
	"encoding/binary"
	"io"
	"math/rand"
	"sort"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/carlakc/boltnd/verifvc"
	"github.com/lightningnetwork/lnd/lntypes"
	"github.com/lightningnetwork/lnd/tlv"
)

// rawRec is a record as it is on the wire.
type rawRec struct {
	typ uint64
	val []byte
}

func (r rawRec) bytes() []byte { return verifvc.TLV(r.typ, r.val) }

func (r rawRec) record() tlv.Record {
	val := r.val
	return tlv.MakeStaticRecord(tlv.Type(r.typ), nil, uint64(len(val)), func(w io.Writer, _ interface{}, _ *[8]byte) error {
		_, err := w.Write(val)
		return err
	}, nil)
}

func specBranch(a, b [32]byte) [32]byte {
	if bytes.Compare(a[:], b[:]) > 0 {
		a, b = b, a
	}
	return *chainhash.TaggedHash([]byte("LnBranch"), append(append([]byte{}, a[:]...), b[:]...))
}

// specRoot is the root of the BOLT 12 tree of records in ascending order.
func specRoot(recs []rawRec) ([32]byte, bool) {
	var all []byte
	var in [][]byte
	for _, r := range recs {
		if r.typ < 240 || r.typ > 1000 {
			in = append(in, r.bytes())
			all = append(all, r.bytes()...)
		}
	}
	if len(in) == 0 {
		return [32]byte{}, false
	}
	nonceTag := append([]byte("LnAll"), all...)
	var level [][32]byte
	for _, b := range in {
		level = append(level, specBranch(*chainhash.TaggedHash([]byte("LnLeaf"), b), *chainhash.TaggedHash(nonceTag, b)))
	}
	for len(level) > 1 {
		var next [][32]byte
		for i := 0; i < len(level); i += 2 {
			if i+1 == len(level) {
				next = append(next, level[i])
			} else {
				next = append(next, specBranch(level[i], level[i+1]))
			}
		}
		level = next
	}
	return level[0], true
}

// contract_merkleRoot: the tree over the records that aren't signatures,
// whatever order they come in.
//@ contract C01 MerkleRoot CreateTLVLeaves CreateTLVBranches CalculateRoot orderNodes createLeafPair encodeTLV isSignatureTLV (*TLVBranch).TaggedHash (*TLVLeaf).TaggedHash n=4000
func contract_merkleRoot(recs []rawRec, order int64) {
	var rs []tlv.Record
	for _, r := range recs {
		rs = append(rs, r.record())
	}
	rand.New(rand.NewSource(order)).Shuffle(len(rs), func(i, j int) { rs[i], rs[j] = rs[j], rs[i] })
	root, err := MerkleRoot(rs)
	want, ok := specRoot(recs)
	verifvc.Ensures("a root exactly if there are records", (err == nil) == ok)
	if ok {
		verifvc.Ensures("the root of the tree", root == lntypes.Hash(want))
	} else {
		verifvc.Ensures("no root with an error", root == lntypes.ZeroHash)
	}
}

func gen_contract_merkleRoot(r *verifvc.Rand) []interface{} {
	return []interface{}{genRecs(r), r.Int63()}
}

// genRecs makes records in ascending order.
func genRecs(r *verifvc.Rand) []rawRec {
	n := r.Intn(9)
	switch {
	case r.Coin(6):
		n = r.Intn(40)
	case r.Coin(60):
		n = 200 + r.Intn(200)
	}
	seen := map[uint64]bool{}
	var recs []rawRec
	for i := 0; i < n; i++ {
		t := r.U64()
		switch r.Intn(6) {
		case 0:
			t = []uint64{0, 238, 239, 240, 241, 999, 1000, 1001, 1002, 252, 253, 65535, 65536, 1<<32 - 1, 1 << 32, 1<<64 - 1}[r.Intn(16)]
		case 1:
			t = uint64(r.Intn(1100))
		}
		if seen[t] {
			continue
		}
		seen[t] = true
		v := r.Data(100)
		if r.Coin(100) {
			v = make([]byte, []int{252, 253, 254, 65535, 65534, 300}[r.Intn(6)])
		}
		if r.Coin(6) {
			v = []byte{}
		}
		recs = append(recs, rawRec{t, v})
	}
	sort.Slice(recs, func(i, j int) bool { return recs[i].typ < recs[j].typ })
	return recs
}

// contract_orderNodes: the smaller hash first.
//@ contract C01 orderNodes (*TLVBranch).TaggedHash (*TLVLeaf).TaggedHash
func contract_orderNodes(tag, a []byte, left, right [32]byte) {
	l := &TLVLeaf{Tag: tag, Value: a}
	b := &TLVBranch{left: left, right: right}
	lh := *chainhash.TaggedHash(tag, a)
	bh := *chainhash.TaggedHash([]byte("LnBranch"), append(append([]byte{}, left[:]...), right[:]...))
	verifvc.Ensures("leaf hash", l.TaggedHash() == lh)
	verifvc.Ensures("branch hash", b.TaggedHash() == bh)
	x, y := orderNodes(l, b)
	if bytes.Compare(lh[:], bh[:]) > 0 {
		verifvc.Ensures("swapped", x == bh && y == lh)
	} else {
		verifvc.Ensures("kept", x == lh && y == bh)
	}
}

// contract_leafPair: a record's leaf and nonce leaf.
//@ contract C01 createLeafPair
func contract_leafPair(rec, all []byte) {
	leaf, nonce := createLeafPair(rec, all)
	verifvc.Ensures("leaf", bytes.Equal(leaf.Tag, []byte("LnLeaf")) && bytes.Equal(leaf.Value, rec))
	verifvc.Ensures("nonce", bytes.Equal(nonce.Tag, append([]byte("LnAll"), all...)) && bytes.Equal(nonce.Value, rec))
	leaf2, nonce2 := createLeafPair(all, rec)
	verifvc.Ensures("earlier leaves stay as they are", bytes.Equal(leaf.Tag, []byte("LnLeaf")) &&
		bytes.Equal(nonce.Tag, append([]byte("LnAll"), all...)))
	verifvc.Ensures("other leaf", bytes.Equal(leaf2.Value, all) && bytes.Equal(nonce2.Tag, append([]byte("LnAll"), rec...)))
}

// contract_isSignature: 240 to 1000.
//@ contract C01 isSignatureTLV
func contract_isSignature(typ uint64) {
	rec := tlv.MakeStaticRecord(tlv.Type(typ), nil, 0, nil, nil)
	verifvc.Ensures("240 to 1000", isSignatureTLV(rec) == (typ >= 240 && typ <= 1000))
}

func gen_contract_isSignature(r *verifvc.Rand) []interface{} {
	t := r.U64()
	if r.Bool() {
		t = 235 + uint64(r.Intn(10))
	}
	if r.Coin(4) {
		t = 995 + uint64(r.Intn(10))
	}
	return []interface{}{t}
}

// contract_branches: leaves combined in pairs.
//@ contract C01 CreateTLVBranches orderNodes
func contract_branches(leaves []*TLVLeaf) {
	verifvc.Requires(verifvc.Forall(0, len(leaves), func(i int) bool { return leaves[i] != nil }))
	bs, err := CreateTLVBranches(leaves)
	verifvc.Ensures("even number", (err != nil) == (len(leaves)%2 != 0))
	if err != nil {
		return
	}
	verifvc.Ensures("half as many", 2*len(bs) == len(leaves))
	verifvc.Ensures("each pair", verifvc.Forall(0, len(bs), func(i int) bool {
		a, b := orderNodes(leaves[2*i], leaves[2*i+1])
		return bs[i].left == a && bs[i].right == b
	}))
}

func gen_contract_branches(r *verifvc.Rand) []interface{} {
	var ls []*TLVLeaf
	for i := r.Intn(12); i > 0; i-- {
		ls = append(ls, &TLVLeaf{Tag: r.Bytes(10), Value: r.Bytes(30)})
	}
	return []interface{}{ls}
}

// specLevels combines hashes level by level.
func specLevels(level [][32]byte) [32]byte {
	for len(level) != 1 {
		var next [][32]byte
		for i := 0; i+1 < len(level); i += 2 {
			next = append(next, specBranch(level[i], level[i+1]))
		}
		if len(level)%2 != 0 {
			next = append(next, level[len(level)-1])
		}
		level = next
	}
	return level[0]
}

// inv_levels: each level has branches.
//@ invariant CalculateRoot
func inv_levels(branches []*TLVBranch) bool {
	return len(branches) >= 1 && verifvc.Forall(0, len(branches), func(i int) bool { return branches[i] != nil })
}

// contract_rootDefined: any number of branches has a root.
//@ deductive C01 CalculateRoot orderNodes
func contract_rootDefined(branches []*TLVBranch) {
	verifvc.Requires(len(branches) > 0)
	verifvc.Requires(verifvc.Forall(0, len(branches), func(i int) bool { return branches[i] != nil }))
	CalculateRoot(branches)
}

// contract_rootOfFive: up to five branches, combined level by level.
//@ deductive C01 CalculateRoot orderNodes
//@ join *
func contract_rootOfFive(a, b, c, d, e *TLVBranch) {
	verifvc.Requires(a != nil && b != nil && c != nil && d != nil && e != nil)
	both := func(x, y *TLVBranch) *TLVBranch {
		l, r := orderNodes(x, y)
		return &TLVBranch{left: l, right: r}
	}
	verifvc.Ensures("one", CalculateRoot([]*TLVBranch{a}) == a.TaggedHash())
	ab := both(a, b)
	verifvc.Ensures("two", CalculateRoot([]*TLVBranch{a, b}) == ab.TaggedHash())
	verifvc.Ensures("three", CalculateRoot([]*TLVBranch{a, b, c}) == both(ab, c).TaggedHash())
	abcd := both(ab, both(c, d))
	verifvc.Ensures("four", CalculateRoot([]*TLVBranch{a, b, c, d}) == abcd.TaggedHash())
	verifvc.Ensures("five", CalculateRoot([]*TLVBranch{a, b, c, d, e}) == both(abcd, e).TaggedHash())
}

// contract_calculateRoot: level by level, an odd branch carried up.
//@ contract C01 CalculateRoot orderNodes
func contract_calculateRoot(branches []*TLVBranch) {
	verifvc.Requires(len(branches) > 0)
	verifvc.Requires(verifvc.Forall(0, len(branches), func(i int) bool { return branches[i] != nil }))
	var level [][32]byte
	for _, b := range branches {
		level = append(level, b.TaggedHash())
	}
	verifvc.Ensures("level by level", [32]byte(CalculateRoot(branches)) == specLevels(level))
}

func gen_contract_calculateRoot(r *verifvc.Rand) []interface{} {
	var bs []*TLVBranch
	for i := 1 + r.Len(70); i > 0; i-- {
		b := &TLVBranch{}
		r.Read(b.left[:])
		r.Read(b.right[:])
		bs = append(bs, b)
	}
	return []interface{}{bs}
}

// sumSorted is tlv.SortRecords of records that are in order already.
//@ summary github.com/lightningnetwork/lnd/tlv.SortRecords
func sumSorted(records []tlv.Record) {
	verifvc.Ensures("in order already", verifvc.Forall(1, len(records), func(i int) bool { return records[i-1].Type() < records[i].Type() }))
}

// encodedOf is the encoding of a record, told by its type.
func encodedOf(typ uint64) []byte {
	var b []byte
	verifvc.Fn(&b, "encoded", typ)
	return b
}

// sumEncodeTLV is encodeTLV, which encodeTLV's contract is about.
//@ summary github.com/carlakc/boltnd/lnwire.encodeTLV
func sumEncodeTLV(record tlv.Record, _ [8]byte) ([]byte, error) {
	if err := verifvc.Fails("encode", uint64(record.Type())); err != nil {
		return nil, err
	}
	return append([]byte{}, encodedOf(uint64(record.Type()))...), nil
}

// contract_leafCount: two leaves for each record that isn't a signature.
//@ deductive C01 CreateTLVLeaves createLeafPair isSignatureTLV
//@ uses sumSorted sumEncodeTLV
func contract_leafCount(types []uint64) {
	verifvc.Requires(len(types) < 1<<40)
	verifvc.Requires(verifvc.Forall(1, len(types), func(i int) bool { return types[i-1] < types[i] }))
	var rs []tlv.Record
	for _, t := range types {
		rs = append(rs, tlv.MakeStaticRecord(tlv.Type(t), nil, 0, nil, nil))
	}
	leaves, err := CreateTLVLeaves(rs, encodeTLV)
	var in []uint64
	for _, t := range types {
		if t >= 240 && t <= 1000 {
			continue
		}
		in = append(in, t)
	}
	verifvc.Ensures("unless a record can't be encoded", (err != nil) == verifvc.Exists(0, len(types), func(i int) bool {
		return !(types[i] >= 240 && types[i] <= 1000) && verifvc.Fails("encode", types[i]) != nil
	}))
	verifvc.Ensures("no leaves with an error", err == nil || leaves == nil)
	verifvc.Ensures("two for each", err != nil || len(leaves) == 2*len(in))
}

// contract_leavesOfThree: what the leaves of three records are.
//@ deductive C01 CreateTLVLeaves createLeafPair isSignatureTLV
//@ uses sumSorted sumEncodeTLV
func contract_leavesOfThree(a, b, c uint64) {
	verifvc.Requires(a < b && b < c)
	types := []uint64{a, b, c}
	var rs []tlv.Record
	for _, t := range types {
		rs = append(rs, tlv.MakeStaticRecord(tlv.Type(t), nil, 0, nil, nil))
	}
	leaves, err := CreateTLVLeaves(rs, encodeTLV)
	var in [][]byte
	var all []byte
	for _, t := range types {
		if t >= 240 && t <= 1000 {
			continue
		}
		if verifvc.Fails("encode", t) != nil {
			verifvc.Ensures("a record that can't be encoded", err != nil)
			return
		}
		in = append(in, encodedOf(t))
		all = append(all, encodedOf(t)...)
	}
	verifvc.Ensures("no error", err == nil)
	verifvc.Ensures("two for each", len(leaves) == 2*len(in))
	for i := range in {
		verifvc.Ensures("leaf", bytes.Equal(leaves[2*i].Value, in[i]) && string(leaves[2*i].Tag) == "LnLeaf")
		verifvc.Ensures("nonce leaf", bytes.Equal(leaves[2*i+1].Value, in[i]) && string(leaves[2*i+1].Tag) == "LnAll"+string(all))
	}
}

// contract_rootOfThree: the root of the tree over three records.
//@ deductive C01 MerkleRoot CreateTLVLeaves CreateTLVBranches CalculateRoot orderNodes createLeafPair isSignatureTLV (*TLVBranch).TaggedHash (*TLVLeaf).TaggedHash
//@ uses sumSorted sumEncodeTLV
func contract_rootOfThree(a, b, c uint64) {
	verifvc.Requires(a < b && b < c)
	types := []uint64{a, b, c}
	var rs []tlv.Record
	for _, t := range types {
		rs = append(rs, tlv.MakeStaticRecord(tlv.Type(t), nil, 0, nil, nil))
	}
	root, err := MerkleRoot(rs)
	var in [][]byte
	nonceTag := []byte("LnAll")
	for _, t := range types {
		if t >= 240 && t <= 1000 {
			continue
		}
		if verifvc.Fails("encode", t) != nil {
			verifvc.Ensures("a record that can't be encoded", err != nil && root == lntypes.ZeroHash)
			return
		}
		in = append(in, encodedOf(t))
		nonceTag = append(nonceTag, encodedOf(t)...)
	}
	if len(in) == 0 {
		verifvc.Ensures("no records", err != nil && root == lntypes.ZeroHash)
		return
	}
	verifvc.Ensures("no error", err == nil)
	var level [][32]byte
	for _, b := range in {
		level = append(level, specBranch(*chainhash.TaggedHash([]byte("LnLeaf"), b), *chainhash.TaggedHash(nonceTag, b)))
	}
	want := level[0]
	if len(level) > 1 {
		want = specBranch(level[0], level[1])
	}
	if len(level) > 2 {
		want = specBranch(want, level[2])
	}
	verifvc.Ensures("the root of the tree", root == lntypes.Hash(want))
}

// contract_leaves: two leaves for each record that isn't a signature, in
// ascending order.
//@ contract C01 CreateTLVLeaves encodeTLV createLeafPair isSignatureTLV
func contract_leaves(recs []rawRec, order int64) {
	var rs []tlv.Record
	for _, r := range recs {
		rs = append(rs, r.record())
	}
	rand.New(rand.NewSource(order)).Shuffle(len(rs), func(i, j int) { rs[i], rs[j] = rs[j], rs[i] })
	leaves, err := CreateTLVLeaves(rs, encodeTLV)
	verifvc.Ensures("no error", err == nil)
	var all []byte
	for _, r := range recs {
		if r.typ < 240 || r.typ > 1000 {
			all = append(all, r.bytes()...)
		}
	}
	i := 0
	for _, r := range recs {
		if r.typ < 240 || r.typ > 1000 {
			verifvc.Ensures("enough leaves", len(leaves) >= i+2)
			verifvc.Ensures("leaf", bytes.Equal(leaves[i].Value, r.bytes()) && string(leaves[i].Tag) == "LnLeaf")
			verifvc.Ensures("nonce leaf", bytes.Equal(leaves[i+1].Value, r.bytes()) && string(leaves[i+1].Tag) == "LnAll"+string(all))
			i += 2
		}
	}
	verifvc.Ensures("no other leaves", len(leaves) == i)
}

func gen_contract_leaves(r *verifvc.Rand) []interface{} {
	return []interface{}{genRecs(r), r.Int63()}
}

// contract_encodeTLV: type, length, value.
//@ contract C01 C02 encodeTLV
func contract_encodeTLV(typ uint64, val []byte) {
	b, err := encodeTLV(rawRec{typ, val}.record(), [8]byte{})
	verifvc.Ensures("type, length, value", err == nil && bytes.Equal(b, verifvc.TLV(typ, val)))
}

// contract_unknownRecords: a record for each type with a value, the value as
// it is.
//@ contract C02 unknownRecordsFromParsed
func contract_unknownRecords(m map[uint64][]byte) {
	in := map[tlv.Type][]byte{}
	n := 0
	for t, v := range m {
		in[tlv.Type(t)] = v
		if v != nil {
			n++
		}
	}
	recs := unknownRecordsFromParsed(in)
	verifvc.Ensures("one for each", len(recs) == n)
	seen := map[tlv.Type]bool{}
	for _, r := range recs {
		verifvc.Ensures("once", !seen[r.Type()])
		seen[r.Type()] = true
		v, ok := m[uint64(r.Type())]
		var b bytes.Buffer
		err := r.Encode(&b)
		verifvc.Ensures("its value", ok && v != nil && err == nil && bytes.Equal(b.Bytes(), v) && r.Size() == uint64(len(v)))
	}
}

func gen_contract_unknownRecords(r *verifvc.Rand) []interface{} {
	m := map[uint64][]byte{}
	for i := r.Intn(8); i > 0; i-- {
		v := r.Data(20)
		if r.Coin(4) {
			v = nil
		}
		m[r.U64()] = v
	}
	return []interface{}{m}
}

// contract_unknownOf: the record of one type, if it has a value.
//@ deductive C02 unknownRecordsFromParsed
func contract_unknownOf(typ uint64, val []byte) {
	recs := unknownRecordsFromParsed(map[tlv.Type][]byte{tlv.Type(typ): val})
	if val == nil {
		verifvc.Ensures("none without a value", len(recs) == 0)
		return
	}
	verifvc.Ensures("one", len(recs) == 1)
	r := recs[0]
	var b bytes.Buffer
	err := r.Encode(&b)
	verifvc.Ensures("its type", r.Type() == tlv.Type(typ) && r.Size() == uint64(len(val)))
	verifvc.Ensures("its value", err == nil && bytes.Equal(b.Bytes(), val))
}

// parseTLV is the records of a stream.
func parseTLV(b []byte) ([]rawRec, bool) {
	num := func() (uint64, bool) {
		if len(b) == 0 {
			return 0, false
		}
		k := map[byte]int{0xfd: 2, 0xfe: 4, 0xff: 8}[b[0]]
		if k == 0 {
			n := uint64(b[0])
			b = b[1:]
			return n, true
		}
		if len(b) < 1+k {
			return 0, false
		}
		var w [8]byte
		copy(w[8-k:], b[1:1+k])
		n := binary.BigEndian.Uint64(w[:])
		b = b[1+k:]
		return n, n >= []uint64{0, 0, 0xfd, 0, 0x10000, 0, 0, 0, 0x100000000}[k]
	}
	var recs []rawRec
	for len(b) > 0 {
		t, ok := num()
		if !ok {
			return nil, false
		}
		if len(recs) > 0 && t <= recs[len(recs)-1].typ {
			return nil, false
		}
		l, ok := num()
		if !ok || l > 65535 || l > uint64(len(b)) {
			return nil, false
		}
		recs = append(recs, rawRec{t, b[:l:l]})
		b = b[l:]
	}
	return recs, true
}

// contract_decodeRoot: the root of the records as they were sent.
//@ contract C02 C01 decodeMerkleRoot unknownRecordsFromParsed MerkleRoot n=4000
func contract_decodeRoot(b []byte) {
	recs, ok := parseTLV(b)
	var want [32]byte
	if ok {
		want, ok = specRoot(recs)
	}
	in := append([]byte{}, b...)
	root, err := decodeMerkleRoot(b)
	verifvc.Ensures("input unchanged", bytes.Equal(in, b))
	verifvc.Ensures("a root exactly for a stream of records", (err == nil) == ok)
	if ok {
		verifvc.Ensures("the root of the records", root == lntypes.Hash(want))
	} else {
		verifvc.Ensures("no root with an error", root == lntypes.ZeroHash)
	}
}

func gen_contract_decodeRoot(r *verifvc.Rand) []interface{} {
	var b []byte
	for _, x := range genRecs(r) {
		b = append(b, x.bytes()...)
	}
	return []interface{}{mutate(r, b)}
}

// mutate damages some encodings.
func mutate(r *verifvc.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	if !r.Coin(3) {
		return b
	}
	for n := 1 + r.Intn(3); n > 0 && len(b) > 0; n-- {
		i := r.Intn(len(b))
		switch r.Intn(7) {
		case 0:
			b[i] = byte(r.U64())
		case 1:
			b = b[:i]
		case 2:
			b = append(b[:i:i], b[i+1:]...)
		case 3:
			b = append(b[:i:i], append([]byte{byte(r.U64())}, b[i:]...)...)
		case 4:
			b[i] ^= 1 << uint(r.Intn(8))
		case 5:
			b = append(b, r.Bytes(10)...)
		case 6:
			j := r.Intn(len(b))
			b = append(b[:i:i], b[j:]...)
		}
	}
	return b
}
