From 49077399d9d1c75ac120cc9956910053de229974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 01/14] fix: reject offer strings with only whitespace around a
 join

Parts were checked for being empty before whitespace was trimmed from them, so
strings starting or ending in a + and whitespace were accepted.
---
 offers/bech32.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/offers/bech32.go b/offers/bech32.go
index dd22b92..4f36739 100644
--- a/offers/bech32.go
+++ b/offers/bech32.go
@@ -120,18 +120,18 @@ func stripOffer(offer string) (string, error) {
 	parts := strings.Split(offer, "+")
 
 	for i, part := range parts {
-		// If any of our parts are empty, we either had consecutive or
-		// starting / ending "+" in our string.
-		if part == "" {
-			return "", ErrIncorrectSplit
-		}
-
 		// We should allow whitespace following a "+" character. Trim
 		// all whitespace so that we can check that except for spaces,
 		// all other characters are bech32. We replace the entry in our
 		// slice to strip out these paces.
 		parts[i] = strings.TrimSpace(part)
 
+		// If any of our parts are empty (or just whitespace), we either
+		// had consecutive or starting / ending "+" in our string.
+		if parts[i] == "" {
+			return "", ErrIncorrectSplit
+		}
+
 		// Check that each split is in our charset.
 		if err := checkASCII(parts[i]); err != nil {
 			return "", fmt.Errorf("%w: part: %v", err, part)
-- 
2.43.0


From 1de2ff9a012ef411d5ec9b228739acf194405a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 02/14] fix: don't share loop variable between unknown tlv
 encoders

The encoding closure captured the loop variable, so every unknown record was
encoded with the value of whichever map entry happened to be visited last.
---
 lnwire/bolt12_merkle.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lnwire/bolt12_merkle.go b/lnwire/bolt12_merkle.go
index 85d9f41..02b4363 100644
--- a/lnwire/bolt12_merkle.go
+++ b/lnwire/bolt12_merkle.go
@@ -289,6 +289,10 @@ func unknownRecordsFromParsed(parsedTypes map[tlv.Type][]byte) []tlv.Record {
 	var records []tlv.Record
 
 	for tlvType, tlvBytes := range parsedTypes {
+		// Copy our loop variable, because it's captured by the encoding
+		// closure below.
+		tlvBytes := tlvBytes
+
 		// If the value of a parsed type is not included in our map, it
 		// was recognized by our code so we don't need to include it.
 		if len(tlvBytes) == 0 {
-- 
2.43.0


From a51f86e371e23adca2bde3774a583354f6a2b058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 03/14] fix: include zero length unknown tlvs in merkle root

---
 lnwire/bolt12_merkle.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lnwire/bolt12_merkle.go b/lnwire/bolt12_merkle.go
index 02b4363..527f40f 100644
--- a/lnwire/bolt12_merkle.go
+++ b/lnwire/bolt12_merkle.go
@@ -295,7 +295,8 @@ func unknownRecordsFromParsed(parsedTypes map[tlv.Type][]byte) []tlv.Record {
 
 		// If the value of a parsed type is not included in our map, it
 		// was recognized by our code so we don't need to include it.
-		if len(tlvBytes) == 0 {
+		// Unknown records with no value have a non-nil, empty value.
+		if tlvBytes == nil {
 			continue
 		}
 
-- 
2.43.0


From a3331160415004155e6e174778669dfed225e39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 04/14] fix: combine merkle branches one level at a time

The previous queue based combination paired the odd branch left over on one
level with the first branch of the next one, which does not match the tree
described in bolt 12 for 5, 7, 9.. records.
---
 lnwire/bolt12_merkle.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/lnwire/bolt12_merkle.go b/lnwire/bolt12_merkle.go
index 527f40f..0d06d79 100644
--- a/lnwire/bolt12_merkle.go
+++ b/lnwire/bolt12_merkle.go
@@ -127,18 +127,28 @@ func MerkleRoot(records []tlv.Record) (lntypes.Hash, error) {
 
 // CalculateRoot combines a set of branches into a merkle root.
 func CalculateRoot(branches []*TLVBranch) chainhash.Hash {
+	// Combine our branches pairwise, one level of the tree at a time. If
+	// there is an odd number of branches, the last one is carried up to the
+	// next level so that the deepest tree is on the lowest-order leaves.
 	for len(branches) != 1 {
-		left, right := orderNodes(branches[0], branches[1])
+		nextLevel := make([]*TLVBranch, 0, (len(branches)+1)/2)
 
-		newBranch := &TLVBranch{
-			left:  left,
-			right: right,
+		for i := 0; i+1 < len(branches); i += 2 {
+			left, right := orderNodes(branches[i], branches[i+1])
+
+			nextLevel = append(nextLevel, &TLVBranch{
+				left:  left,
+				right: right,
+			})
+		}
+
+		if len(branches)%2 != 0 {
+			nextLevel = append(
+				nextLevel, branches[len(branches)-1],
+			)
 		}
 
-		// Remove the individual branches from our set, and add our
-		// combined branch.
-		branches = branches[2:]
-		branches = append(branches, newBranch)
+		branches = nextLevel
 	}
 
 	// We exit when we only have one branch left, this is our root.
-- 
2.43.0


From 977d3af9321b02139fb12317aefb3f6b37658189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 05/14] fix: surface zero length final hop payloads

---
 lnwire/onion_msg_payload.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lnwire/onion_msg_payload.go b/lnwire/onion_msg_payload.go
index 0a4f7fd..44aa0f5 100644
--- a/lnwire/onion_msg_payload.go
+++ b/lnwire/onion_msg_payload.go
@@ -166,8 +166,9 @@ func DecodeOnionMessagePayload(o []byte) (*OnionMessagePayload, error) {
 		}
 
 		// Skip any tlvs that have been recognized in our decoding (a
-		// zero entry means that we recognized the entry).
-		if len(tlvBytes) == 0 {
+		// nil entry means that we recognized the entry). Marker tlvs
+		// that have no body have a non-nil, empty entry.
+		if tlvBytes == nil {
 			continue
 		}
 
-- 
2.43.0


From b94bf855ef408934e65d556e24a372c959eca322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 06/14] fix: error out rather than truncate onion message
 lengths

Reply path hop counts, blinded hop data lengths and onion blob lengths that do
not fit in their length prefix were silently truncated, producing messages that
the recipient decodes incorrectly.
---
 lnwire/onion_message.go     | 10 ++++++++++
 lnwire/onion_msg_payload.go | 18 ++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/lnwire/onion_message.go b/lnwire/onion_message.go
index e6550d6..9439657 100644
--- a/lnwire/onion_message.go
+++ b/lnwire/onion_message.go
@@ -2,8 +2,10 @@ package lnwire
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/btcsuite/btcd/btcec/v2"
 	lndwire "github.com/lightningnetwork/lnd/lnwire"
@@ -12,6 +14,10 @@ import (
 // OnionMessageType is the protocol message type used for onion messages in lnd.
 const OnionMessageType = 513
 
+// ErrOnionTooLong is returned when an onion blob is longer than its length
+// prefix can express.
+var ErrOnionTooLong = errors.New("onion blob too long")
+
 // OnionMessage represents an onion message used to communicate with peers.
 type OnionMessage struct {
 	// BlindingPoint is the route blinding ephemeral pubkey to be used for
@@ -76,6 +82,10 @@ func (o *OnionMessage) Encode(w *bytes.Buffer, _ uint32) error {
 	}
 
 	onionLen := len(o.OnionBlob)
+	if onionLen > math.MaxUint16 {
+		return fmt.Errorf("%w: %v", ErrOnionTooLong, onionLen)
+	}
+
 	if err := lndwire.WriteElement(w, uint16(onionLen)); err != nil {
 		return fmt.Errorf("encode onion len: %w", err)
 	}
diff --git a/lnwire/onion_msg_payload.go b/lnwire/onion_msg_payload.go
index 44aa0f5..23cc32d 100644
--- a/lnwire/onion_msg_payload.go
+++ b/lnwire/onion_msg_payload.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"sort"
 
 	"github.com/btcsuite/btcd/btcec/v2"
@@ -41,6 +42,14 @@ var (
 	// ErrNoHops is returned when we handle a reply path that does not
 	// have any hops (this makes no sense).
 	ErrNoHops = errors.New("reply path requires hops")
+
+	// ErrTooManyHops is returned when a reply path has more hops than can
+	// be expressed by its hop count.
+	ErrTooManyHops = errors.New("reply path has too many hops")
+
+	// ErrDataTooLong is returned when a blinded hop's encrypted data is
+	// longer than its length prefix can express.
+	ErrDataTooLong = errors.New("blinded hop data too long")
 )
 
 // OnionMessagePayload contains the contents of an onion message payload.
@@ -288,6 +297,10 @@ func encodeReplyPath(w io.Writer, val interface{}, buf *[8]byte) error {
 			return fmt.Errorf("encode blinded path: %w", err)
 		}
 
+		if len(p.Hops) > math.MaxUint8 {
+			return fmt.Errorf("%w: %v", ErrTooManyHops, len(p.Hops))
+		}
+
 		hopCount := uint8(len(p.Hops))
 		if hopCount == 0 {
 			return ErrNoHops
@@ -371,6 +384,11 @@ func encodeBlindedHop(w io.Writer, val interface{}, buf *[8]byte) error {
 			return fmt.Errorf("encode blinded id: %w", err)
 		}
 
+		if len(b.EncryptedData) > math.MaxUint16 {
+			return fmt.Errorf("%w: %v", ErrDataTooLong,
+				len(b.EncryptedData))
+		}
+
 		dataLen := uint16(len(b.EncryptedData))
 		if err := tlv.EUint16(w, &dataLen, buf); err != nil {
 			return fmt.Errorf("data len: %w", err)
-- 
2.43.0


From 351147a8eeae4ab67b63161c3bdc2238a8b41d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 07/14] fix: bound reply path decoding by its record's length

The declared length of a reply path record was ignored, so a malformed reply
path could swallow the records that follow it, or have its own trailing bytes
parsed as additional records.
---
 lnwire/onion_msg_payload.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lnwire/onion_msg_payload.go b/lnwire/onion_msg_payload.go
index 23cc32d..1e32cb2 100644
--- a/lnwire/onion_msg_payload.go
+++ b/lnwire/onion_msg_payload.go
@@ -47,6 +47,10 @@ var (
 	// be expressed by its hop count.
 	ErrTooManyHops = errors.New("reply path has too many hops")
 
+	// ErrTrailingData is returned when a reply path record contains more
+	// data than its contents require.
+	ErrTrailingData = errors.New("unexpected data after reply path")
+
 	// ErrDataTooLong is returned when a blinded hop's encrypted data is
 	// longer than its length prefix can express.
 	ErrDataTooLong = errors.New("blinded hop data too long")
@@ -327,6 +331,11 @@ func decodeReplyPath(r io.Reader, val interface{}, buf *[8]byte,
 	l uint64) error {
 
 	if p, ok := val.(*ReplyPath); ok && l > 35 {
+		// Only read from within our record, its contents may not spill
+		// over into the next record in the stream.
+		limited := &io.LimitedReader{R: r, N: int64(l)}
+		r = limited
+
 		err := tlv.DPubKey(r, &p.FirstNodeID, buf, 33)
 		if err != nil {
 			return fmt.Errorf("decode first id: %w", err)
@@ -355,6 +364,11 @@ func decodeReplyPath(r io.Reader, val interface{}, buf *[8]byte,
 			p.Hops = append(p.Hops, hop)
 		}
 
+		if limited.N != 0 {
+			return fmt.Errorf("%w: %v bytes", ErrTrailingData,
+				limited.N)
+		}
+
 		return nil
 	}
 
-- 
2.43.0


From 33e40abc3eac5d6b73e1d04f908d430ee099c512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 08/14] fix: include final payloads when sending direct to
 blinded route

Messages to a blinded destination whose introduction node is the first node we
send to were delivered without the sender's final payloads and reply path.
---
 routes/blinded.go | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/routes/blinded.go b/routes/blinded.go
index aa904e8..9c17d10 100644
--- a/routes/blinded.go
+++ b/routes/blinded.go
@@ -691,27 +691,20 @@ func createOnionMessage(sphinxPath *sphinx.PaymentPath,
 // recipient, and we don't need to append any of our hops onto the blinded
 // route.
 func directToBlinded(req *BlindedRouteRequest) (*BlindedRouteResponse, error) {
-	var sphinxPath sphinx.PaymentPath
-
-	for i, hop := range req.blindedDestination.Hops {
-		sphinxHop, err := createSphinxHop(
-			*hop.BlindedNodeID,
-			&lnwire.OnionMessagePayload{
-				EncryptedData: hop.EncryptedData,
-			},
-		)
-		if err != nil {
-			return nil, fmt.Errorf("sphinx hop "+
-				"%v: %w", i, err)
-		}
-
-		sphinxPath[i] = *sphinxHop
+	// We have no hops of our own to add, so the path is made up of only
+	// the blinded destination's hops.
+	sphinxPath, err := blindedToSphinx(
+		&sphinx.BlindedPath{}, req.blindedHops(), req.replyPath,
+		req.finalPayloads,
+	)
+	if err != nil {
+		return nil, fmt.Errorf("could not create sphinx path: %w", err)
 	}
 
 	// Note: we still use our session key for the onion
 	// packet, but provide the blinded reply path's point.
 	onionMsg, err := createOnionMessage(
-		&sphinxPath, req.sessionKey,
+		sphinxPath, req.sessionKey,
 		req.blindedDestination.BlindingPoint,
 	)
 	if err != nil {
-- 
2.43.0


From aa7afd901de8a927b344ca5323cae6a6e41f38c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 09/14] fix: fail rather than panic on routes longer than an
 onion

---
 routes/blinded.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/routes/blinded.go b/routes/blinded.go
index 9c17d10..3c05a7d 100644
--- a/routes/blinded.go
+++ b/routes/blinded.go
@@ -53,6 +53,10 @@ var (
 	// the final hop in a path provided for a send to a blinded route.
 	ErrNoIntroductionNode = errors.New("introduction node should be " +
 		"final hop when sending to a blinded path")
+
+	// ErrTooManyHops is returned when a route has more hops than will fit
+	// in an onion.
+	ErrTooManyHops = errors.New("too many hops for onion")
 )
 
 // BlindedRouteGenerator produces blinded routes.
@@ -563,6 +567,11 @@ func blindedToSphinx(blindedRoute *sphinx.BlindedPath,
 		extraHopCount = len(extraHops)
 	)
 
+	if ourHopCount+extraHopCount > len(sphinxPath) {
+		return nil, fmt.Errorf("%w: %v > %v", ErrTooManyHops,
+			ourHopCount+extraHopCount, len(sphinxPath))
+	}
+
 	// Fill in the blinded node id and encrypted data for all hops. This
 	// requirement differs from blinded hops used for payments, where we
 	// don't use the blinded introduction node id. However, since onion
-- 
2.43.0


From 5e2c80e23182582dbe46934fbe01819a3347ba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 10/14] fix: don't overflow lnd connection attempt count

With the maximum number of retries no connection attempt was made at all, and
startup continued without a connection to lnd.
---
 boltnd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boltnd.go b/boltnd.go
index 6ad6cdd..d25c860 100644
--- a/boltnd.go
+++ b/boltnd.go
@@ -71,7 +71,7 @@ func (b *Boltnd) Start() error {
 	// We allow zero retires, so we iterate with retries + 1 to allow at
 	// least one connection attempt for lnd.
 	var connErr error
-	for i := 0; i < int(b.cfg.LNDRetires+1); i++ {
+	for i := 0; i < int(b.cfg.LNDRetires)+1; i++ {
 		log.Infof("Attempt: %v to connect to lnd", i)
 
 		b.lnd, connErr = lndclient.NewLndServices(b.cfg.LndClientCfg)
-- 
2.43.0


From 152e498b3b45cfcd444987132ca0d3885f42e97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 11/14] fix: allow quantity for offers with a one-sided
 quantity range

---
 lnwire/bolt12_invoice_request.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lnwire/bolt12_invoice_request.go b/lnwire/bolt12_invoice_request.go
index e89ee4d..5179b87 100644
--- a/lnwire/bolt12_invoice_request.go
+++ b/lnwire/bolt12_invoice_request.go
@@ -138,7 +138,7 @@ func NewInvoiceRequest(offer *Offer, amount lnwire.MilliSatoshi,
 		haveMinQuantity = offer.QuantityMin != 0
 		haveMaxQuantity = offer.QuantityMax != 0
 
-		quantitySpecified = haveMinQuantity && haveMaxQuantity
+		quantitySpecified = haveMinQuantity || haveMaxQuantity
 	)
 
 	// Fail if the offer has a quantity range but the request does not set
-- 
2.43.0


From f0615d5d11fd0562657e4336bf469a8102f8ca26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 12/14] fix: error out on invoice relative expiry overflow

---
 lnwire/bolt12_invoice.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lnwire/bolt12_invoice.go b/lnwire/bolt12_invoice.go
index f5f174b..9aa2bdb 100644
--- a/lnwire/bolt12_invoice.go
+++ b/lnwire/bolt12_invoice.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"math"
 	"time"
 
 	"github.com/btcsuite/btcd/btcec/v2"
@@ -77,6 +78,10 @@ var (
 
 	// ErrNoAmount is returned when an invoice doesn't have an amount tlv.
 	ErrNoAmount = errors.New("invoice requires amount")
+
+	// ErrExpiryOverflow is returned when an invoice's relative expiry is
+	// too large to be represented.
+	ErrExpiryOverflow = errors.New("relative expiry too large")
 )
 
 // Invoice represents a bolt 12 invoice.
@@ -391,6 +396,11 @@ func DecodeInvoice(b []byte) (*Invoice, error) {
 	}
 
 	if _, ok := tlvMap[invRelativeExpiryType]; ok {
+		if relativeExpiry > uint64(math.MaxInt64/time.Second) {
+			return nil, fmt.Errorf("%w: %v", ErrExpiryOverflow,
+				relativeExpiry)
+		}
+
 		i.RelativeExpiry = time.Second * time.Duration(relativeExpiry)
 	}
 
-- 
2.43.0


From b436bd5cf29c46375c4345c874192642db57f84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 13/14] fix: release subscription handler before deregistering
 it

If sending a payload to the client failed, deregistration could block forever
on the messenger's event loop while that loop was itself blocked delivering a
message to the subscription's handler.
---
 rpcserver/impl_subscribe_onion_payload.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rpcserver/impl_subscribe_onion_payload.go b/rpcserver/impl_subscribe_onion_payload.go
index 9427e0b..13b289e 100644
--- a/rpcserver/impl_subscribe_onion_payload.go
+++ b/rpcserver/impl_subscribe_onion_payload.go
@@ -62,6 +62,11 @@ func handleSubscribeOnionPayload(ctx context.Context, tlvType tlv.Type,
 	messenger onionmsg.OnionMessenger,
 	send func(*offersrpc.SubscribeOnionPayloadResponse) error) error {
 
+	// Cancel our context on exit, so that our handler stops delivering
+	// messages once we're no longer consuming them.
+	ctx, cancel := context.WithCancel(ctx)
+	defer cancel()
+
 	// Create an onion message handler which will consume messages from
 	// our incoming channel, dropping messages if our server is shut down
 	// or the client cancels their context.
@@ -96,6 +101,11 @@ func handleSubscribeOnionPayload(ctx context.Context, tlvType tlv.Type,
 	}
 
 	defer func() {
+		// The messenger can't process our request to deregister while
+		// it is delivering a message to our handler, so we need to
+		// release our handler first.
+		cancel()
+
 		if err := messenger.DeregisterHandler(tlvType); err != nil {
 			log.Errorf("Deregister handler: %v failed: %v",
 				tlvType, err)
-- 
2.43.0


From b07266be546f9593c3c140fe0385a4588a245ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 14/14] fix: calculate merkle root from the records that were
 sent

The root was calculated by re-encoding the fields that we decoded, which drops
or changes records that the sender did not serialize as we would (for example,
explicitly empty fields), so valid signatures failed to verify.
---
 lnwire/bolt12_invoice.go         |  2 +-
 lnwire/bolt12_invoice_request.go |  2 +-
 lnwire/bolt12_offer.go           |  2 +-
 lnwire/bolt12_shared.go          | 26 ++++++++++++++------------
 4 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/lnwire/bolt12_invoice.go b/lnwire/bolt12_invoice.go
index 9aa2bdb..460f0f4 100644
--- a/lnwire/bolt12_invoice.go
+++ b/lnwire/bolt12_invoice.go
@@ -408,7 +408,7 @@ func DecodeInvoice(b []byte) (*Invoice, error) {
 		i.Signature = &signature
 	}
 
-	i.MerkleRoot, err = decodeMerkleRoot(i, tlvMap)
+	i.MerkleRoot, err = decodeMerkleRoot(b)
 	if err != nil {
 		return nil, fmt.Errorf("merkle root: %w", err)
 	}
diff --git a/lnwire/bolt12_invoice_request.go b/lnwire/bolt12_invoice_request.go
index 5179b87..dbbae36 100644
--- a/lnwire/bolt12_invoice_request.go
+++ b/lnwire/bolt12_invoice_request.go
@@ -404,7 +404,7 @@ func DecodeInvoiceRequest(b []byte) (*InvoiceRequest, error) {
 		i.Signature = &signature
 	}
 
-	i.MerkleRoot, err = decodeMerkleRoot(i, tlvMap)
+	i.MerkleRoot, err = decodeMerkleRoot(b)
 	if err != nil {
 		return nil, fmt.Errorf("merkle root: %w", err)
 	}
diff --git a/lnwire/bolt12_offer.go b/lnwire/bolt12_offer.go
index c90134b..030cc75 100644
--- a/lnwire/bolt12_offer.go
+++ b/lnwire/bolt12_offer.go
@@ -342,7 +342,7 @@ func DecodeOffer(offerBytes []byte) (*Offer, error) {
 		offer.Signature = &signature
 	}
 
-	offer.MerkleRoot, err = decodeMerkleRoot(offer, tlvMap)
+	offer.MerkleRoot, err = decodeMerkleRoot(offerBytes)
 	if err != nil {
 		return nil, fmt.Errorf("merkle root: %w", err)
 	}
diff --git a/lnwire/bolt12_shared.go b/lnwire/bolt12_shared.go
index 47028c1..74730e8 100644
--- a/lnwire/bolt12_shared.go
+++ b/lnwire/bolt12_shared.go
@@ -61,21 +61,23 @@ type tlvTree interface {
 }
 
 // decodeMerkleRoot produces a tlv merkle tree root for a tlv stream that we
-// have decoded. Since the sender may have populated the tree with odd tlv
-// records that are unknown to us, we include odd unknown records that were
-// parsed but not understood (by our decoding, the sender would have known
-// them) in our tree.
-func decodeMerkleRoot(recordProducer tlvTree,
-	tlvMap map[tlv.Type][]byte) (lntypes.Hash, error) {
-
-	populatedRecords, err := recordProducer.records()
+// have decoded. The root commits to the records exactly as they were serialized
+// by the sender, including records that are unknown to us and those that we
+// would have encoded differently ourselves (or not at all).
+func decodeMerkleRoot(tlvBytes []byte) (lntypes.Hash, error) {
+	// Create a stream that does not recognize any records, so that we get
+	// the raw bytes for all of them.
+	stream, err := tlv.NewStream()
 	if err != nil {
-		return lntypes.Hash{}, fmt.Errorf("get records: %w", err)
+		return lntypes.Hash{}, fmt.Errorf("merkle stream: %w", err)
 	}
 
-	root, err := MerkleRoot(
-		append(populatedRecords, unknownRecordsFromParsed(tlvMap)...),
-	)
+	tlvMap, err := stream.DecodeWithParsedTypes(bytes.NewReader(tlvBytes))
+	if err != nil {
+		return lntypes.Hash{}, fmt.Errorf("merkle records: %w", err)
+	}
+
+	root, err := MerkleRoot(unknownRecordsFromParsed(tlvMap))
 	if err != nil {
 		return lntypes.Hash{}, fmt.Errorf("merkle root: %w", err)
 	}
-- 
2.43.0

