package lnwire

import (
	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/btcec/v2/schnorr"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/carlakc/boltnd/verifvc"
	"github.com/lightningnetwork/lnd/lntypes"
)

// specDigest is the digest that is signed for a BOLT 12 message.
func specDigest(message string, root lntypes.Hash) []byte {
	h := chainhash.TaggedHash([]byte("lightning"+message+"signature"), root[:])
	return h[:]
}

// specSigParses reports whether a signature can be parsed.
func specSigParses(sig [64]byte) bool {
	_, err := schnorr.ParseSignature(sig[:])
	return err == nil
}

// specSigOK reports whether sig is a valid signature for the digest and key.
func specSigOK(sig [64]byte, key *btcec.PublicKey, digest []byte) bool {
	s, err := schnorr.ParseSignature(sig[:])
	if err != nil {
		return false
	}
	return s.Verify(digest, key)
}

// contract_OfferValidate: an offer is accepted exactly when it is well formed,
// and rejected with the error of the first rule that fails.
//@ contract C03 C04 (*Offer).Validate validateSignature signatureDigest
func contract_OfferValidate(o *Offer) {
	verifvc.Requires(o != nil)
	before := verifvc.Clone(*o)
	err := o.Validate()
	verifvc.Ensures("offer unchanged", verifvc.Eq(before, *o))
	switch {
	case o.NodeID == nil:
		verifvc.Ensures("node id required", verifvc.Is(err, ErrNodeIDRequired))
	case o.Description == "":
		verifvc.Ensures("description required", verifvc.Is(err, ErrDescriptionRequried))
	case o.QuantityMin != 0 && o.QuantityMax != 0 && o.QuantityMin > o.QuantityMax:
		verifvc.Ensures("quantity range", verifvc.Is(err, ErrQuantityRange))
	case o.Signature != nil && !specSigOK(*o.Signature, o.NodeID, specDigest("offer", o.MerkleRoot)):
		verifvc.Ensures("bad signature rejected", err != nil)
		if specSigParses(*o.Signature) {
			verifvc.Ensures("invalid signature", verifvc.Is(err, ErrInvalidSig))
		}
	default:
		verifvc.Ensures("well-formed offer accepted", err == nil)
	}
}

func gen_contract_OfferValidate(r *verifvc.Rand) []interface{} {
	var o *Offer
	for o == nil {
		o = r.Make((*Offer)(nil), 3).(*Offer)
	}
	if o.Description == "" && !r.Coin(4) {
		o.Description = "d"
	}
	if o.NodeID == nil && !r.Coin(4) {
		o.NodeID = r.Key()
	}
	o.Signature = genSig(r, []string{"offer", "invoice", "invoice_request"}[r.Intn(5)/2], o.MerkleRoot, o.NodeID)
	return []interface{}{o}
}

func genSig(r *verifvc.Rand, tag string, root lntypes.Hash, key *btcec.PublicKey) *[64]byte {
	if r.Coin(5) {
		return nil
	}
	var sig [64]byte
	priv := verifvc.PrivOf(key)
	if priv == nil || r.Coin(6) {
		priv = r.Priv()
	}
	if r.Coin(8) {
		root[r.Intn(32)] ^= byte(1 << uint(r.Intn(8)))
	}
	s, err := schnorr.Sign(priv, specDigest(tag, root))
	if err != nil {
		panic(err)
	}
	copy(sig[:], s.Serialize())
	switch r.Intn(12) {
	case 0:
		sig[r.Intn(64)] ^= byte(1 << uint(r.Intn(8)))
	case 1:
		sig = [64]byte{}
	case 2:
		for i := range sig {
			sig[i] = 0xff
		}
	case 3:
		for i := 32; i < 64; i++ {
			sig[i] = 0xff
		}
	}
	return &sig
}

// contract_InvoiceValidate: as for offers.
//@ contract C03 C04 (*Invoice).Validate validateSignature signatureDigest
func contract_InvoiceValidate(i *Invoice) {
	verifvc.Requires(i != nil)
	before := verifvc.Clone(*i)
	err := i.Validate()
	verifvc.Ensures("invoice unchanged", verifvc.Eq(before, *i))
	switch {
	case i.Amount == 0:
		verifvc.Ensures("amount required", verifvc.Is(err, ErrNoAmount))
	case i.PaymentHash == lntypes.Hash{}:
		verifvc.Ensures("payment hash required", verifvc.Is(err, ErrNoPaymentHash))
	case i.CreatedAt.IsZero():
		verifvc.Ensures("creation time required", verifvc.Is(err, ErrNoCreationTime))
	case i.NodeID == nil:
		verifvc.Ensures("node id required", verifvc.Is(err, ErrNodeIDRequired))
	case i.Description == "":
		verifvc.Ensures("description required", verifvc.Is(err, ErrDescriptionRequried))
	case i.Signature != nil && !specSigOK(*i.Signature, i.NodeID, specDigest("invoice", i.MerkleRoot)):
		verifvc.Ensures("bad signature rejected", err != nil)
		if specSigParses(*i.Signature) {
			verifvc.Ensures("invalid signature", verifvc.Is(err, ErrInvalidSig))
		}
	default:
		verifvc.Ensures("well-formed invoice accepted", err == nil)
	}
}

func gen_contract_InvoiceValidate(r *verifvc.Rand) []interface{} {
	var i *Invoice
	for i == nil {
		i = r.Make((*Invoice)(nil), 3).(*Invoice)
	}
	if i.Amount == 0 && !r.Coin(4) {
		i.Amount = 1
	}
	if i.PaymentHash == lntypes.ZeroHash && !r.Coin(4) {
		i.PaymentHash[r.Intn(32)] = 1
	}
	if i.Description == "" && !r.Coin(4) {
		i.Description = "d"
	}
	if i.NodeID == nil && !r.Coin(4) {
		i.NodeID = r.Key()
	}
	key := i.NodeID
	if r.Coin(6) {
		key = i.PayerKey
	}
	i.Signature = genSig(r, []string{"invoice", "offer", "invoice_request"}[r.Intn(5)/2], i.MerkleRoot, key)
	return []interface{}{i}
}

// contract_InvoiceRequestValidate: as for offers; the signature is not
// optional, and is the payer's.
//@ contract C03 C04 (*InvoiceRequest).Validate validateSignature signatureDigest
func contract_InvoiceRequestValidate(i *InvoiceRequest) {
	verifvc.Requires(i != nil)
	before := verifvc.Clone(*i)
	err := i.Validate()
	verifvc.Ensures("request unchanged", verifvc.Eq(before, *i))
	switch {
	case i.OfferID == lntypes.Hash{}:
		verifvc.Ensures("offer id required", verifvc.Is(err, ErrOfferIDRequired))
	case i.PayerKey == nil:
		verifvc.Ensures("payer key required", verifvc.Is(err, ErrPayerKeyRequired))
	case i.Signature == nil:
		verifvc.Ensures("signature required", verifvc.Is(err, ErrSignatureRequired))
	case !specSigOK(*i.Signature, i.PayerKey, specDigest("invoice_request", i.MerkleRoot)):
		verifvc.Ensures("bad signature rejected", err != nil)
		if specSigParses(*i.Signature) {
			verifvc.Ensures("invalid signature", verifvc.Is(err, ErrInvalidSig))
		}
	default:
		verifvc.Ensures("well-formed request accepted", err == nil)
	}
}

func gen_contract_InvoiceRequestValidate(r *verifvc.Rand) []interface{} {
	var i *InvoiceRequest
	for i == nil {
		i = r.Make((*InvoiceRequest)(nil), 3).(*InvoiceRequest)
	}
	if i.OfferID == lntypes.ZeroHash && !r.Coin(4) {
		i.OfferID[r.Intn(32)] = 1
	}
	if i.PayerKey == nil && !r.Coin(4) {
		i.PayerKey = r.Key()
	}
	i.Signature = genSig(r, []string{"invoice_request", "invoice", "offer"}[r.Intn(5)/2], i.MerkleRoot, i.PayerKey)
	return []interface{}{i}
}

// contract_SignatureDigest: the digest handed out for signing is the one that
// validation checks.
//@ contract C04 (*InvoiceRequest).SignatureDigest signatureDigest
func contract_SignatureDigest(i *InvoiceRequest) {
	verifvc.Requires(i != nil)
	d := i.SignatureDigest()
	verifvc.Ensures("digest", string(d[:]) == string(specDigest("invoice_request", i.MerkleRoot)))
}

// contract_signatureDigest: the digest is the hash of the root, tagged with
// "lightning", the message and the field.
//@ contract C04 signatureDigest
func contract_signatureDigest(message, field []byte, root lntypes.Hash) {
	d := signatureDigest(message, field, root)
	w := chainhash.TaggedHash([]byte("lightning"+string(message)+string(field)), root[:])
	verifvc.Ensures("digest", d == *w)
}

// contract_validateSignature: accepts exactly the valid signatures.
//@ contract C04 validateSignature
func contract_validateSignature(sig [64]byte, key *btcec.PublicKey, digest []byte) {
	verifvc.Requires(key != nil)
	err := validateSignature(sig, key, digest)
	verifvc.Ensures("accepts exactly valid signatures", (err == nil) == specSigOK(sig, key, digest))
	if specSigParses(sig) && err != nil {
		verifvc.Ensures("invalid signature", verifvc.Is(err, ErrInvalidSig))
	}
}

func gen_contract_validateSignature(r *verifvc.Rand) []interface{} {
	var root lntypes.Hash
	r.Read(root[:])
	key := r.Key()
	digest := specDigest("offer", root)
	sig := genSig(r, "offer", root, key)
	for sig == nil {
		sig = genSig(r, "offer", root, key)
	}
	if r.Coin(8) {
		digest[r.Intn(32)]++
	}
	return []interface{}{*sig, key, digest}
}
