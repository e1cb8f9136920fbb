From 7bf5b1638bf98d13bd23aee83acd889d13e9169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 01/23] fix: encode each unknown tlv record with its own value
 in merkle root

---
 lnwire/bolt12_merkle.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lnwire/bolt12_merkle.go b/lnwire/bolt12_merkle.go
index 85d9f41..0062495 100644
--- a/lnwire/bolt12_merkle.go
+++ b/lnwire/bolt12_merkle.go
@@ -289,6 +289,10 @@ func unknownRecordsFromParsed(parsedTypes map[tlv.Type][]byte) []tlv.Record {
 	var records []tlv.Record
 
 	for tlvType, tlvBytes := range parsedTypes {
+		// Copy our loop variable, because it is captured by the encode
+		// closure below which only runs once our loop has finished.
+		tlvBytes := tlvBytes
+
 		// If the value of a parsed type is not included in our map, it
 		// was recognized by our code so we don't need to include it.
 		if len(tlvBytes) == 0 {
-- 
2.43.0


From 9164457d502f070ecf0ae5da058a3b34965f2465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 02/23] fix: include empty unknown tlv records in merkle root

---
 lnwire/bolt12_merkle.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lnwire/bolt12_merkle.go b/lnwire/bolt12_merkle.go
index 0062495..8f17235 100644
--- a/lnwire/bolt12_merkle.go
+++ b/lnwire/bolt12_merkle.go
@@ -295,7 +295,8 @@ func unknownRecordsFromParsed(parsedTypes map[tlv.Type][]byte) []tlv.Record {
 
 		// If the value of a parsed type is not included in our map, it
 		// was recognized by our code so we don't need to include it.
-		if len(tlvBytes) == 0 {
+		// Unknown records without a body have an empty, non-nil value.
+		if tlvBytes == nil {
 			continue
 		}
 
-- 
2.43.0


From 0d06a6e93e794782e56b7022109f133aaa6f9e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 03/23] fix: deliver final hop payloads that have no body

---
 lnwire/onion_msg_payload.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lnwire/onion_msg_payload.go b/lnwire/onion_msg_payload.go
index 0a4f7fd..b038247 100644
--- a/lnwire/onion_msg_payload.go
+++ b/lnwire/onion_msg_payload.go
@@ -166,8 +166,9 @@ func DecodeOnionMessagePayload(o []byte) (*OnionMessagePayload, error) {
 		}
 
 		// Skip any tlvs that have been recognized in our decoding (a
-		// zero entry means that we recognized the entry).
-		if len(tlvBytes) == 0 {
+		// nil entry means that we recognized the entry, "marker-tlvs"
+		// that have no body have an empty, non-nil entry).
+		if tlvBytes == nil {
 			continue
 		}
 
-- 
2.43.0


From d3493fe8b97d21ba7e3ff42cbb76aa7066d4c8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 04/23] fix: refuse to encode lengths that overflow their
 prefix

---
 lnwire/onion_message.go     |  6 ++++++
 lnwire/onion_msg_payload.go | 18 ++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/lnwire/onion_message.go b/lnwire/onion_message.go
index e6550d6..98bdf0c 100644
--- a/lnwire/onion_message.go
+++ b/lnwire/onion_message.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/btcsuite/btcd/btcec/v2"
 	lndwire "github.com/lightningnetwork/lnd/lnwire"
@@ -76,6 +77,11 @@ func (o *OnionMessage) Encode(w *bytes.Buffer, _ uint32) error {
 	}
 
 	onionLen := len(o.OnionBlob)
+	if onionLen > math.MaxUint16 {
+		return fmt.Errorf("%w: onion blob: %v", ErrDataTooLong,
+			onionLen)
+	}
+
 	if err := lndwire.WriteElement(w, uint16(onionLen)); err != nil {
 		return fmt.Errorf("encode onion len: %w", err)
 	}
diff --git a/lnwire/onion_msg_payload.go b/lnwire/onion_msg_payload.go
index b038247..e817736 100644
--- a/lnwire/onion_msg_payload.go
+++ b/lnwire/onion_msg_payload.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"sort"
 
 	"github.com/btcsuite/btcd/btcec/v2"
@@ -41,6 +42,14 @@ var (
 	// ErrNoHops is returned when we handle a reply path that does not
 	// have any hops (this makes no sense).
 	ErrNoHops = errors.New("reply path requires hops")
+
+	// ErrTooManyHops is returned when we try to encode a reply path with
+	// more hops than its hop count can express.
+	ErrTooManyHops = errors.New("too many hops in reply path")
+
+	// ErrDataTooLong is returned when we try to encode data that is longer
+	// than its length prefix can express.
+	ErrDataTooLong = errors.New("data exceeds maximum length")
 )
 
 // OnionMessagePayload contains the contents of an onion message payload.
@@ -288,6 +297,10 @@ func encodeReplyPath(w io.Writer, val interface{}, buf *[8]byte) error {
 			return fmt.Errorf("encode blinded path: %w", err)
 		}
 
+		if len(p.Hops) > math.MaxUint8 {
+			return fmt.Errorf("%w: %v", ErrTooManyHops, len(p.Hops))
+		}
+
 		hopCount := uint8(len(p.Hops))
 		if hopCount == 0 {
 			return ErrNoHops
@@ -371,6 +384,11 @@ func encodeBlindedHop(w io.Writer, val interface{}, buf *[8]byte) error {
 			return fmt.Errorf("encode blinded id: %w", err)
 		}
 
+		if len(b.EncryptedData) > math.MaxUint16 {
+			return fmt.Errorf("%w: encrypted data: %v",
+				ErrDataTooLong, len(b.EncryptedData))
+		}
+
 		dataLen := uint16(len(b.EncryptedData))
 		if err := tlv.EUint16(w, &dataLen, buf); err != nil {
 			return fmt.Errorf("data len: %w", err)
-- 
2.43.0


From 15fd0129a0521e7c21cab0c16cdef0d5d2aeb437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 05/23] fix: decode reply paths strictly within their tlv
 record

---
 lnwire/onion_msg_payload.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lnwire/onion_msg_payload.go b/lnwire/onion_msg_payload.go
index e817736..bbf8298 100644
--- a/lnwire/onion_msg_payload.go
+++ b/lnwire/onion_msg_payload.go
@@ -47,6 +47,10 @@ var (
 	// more hops than its hop count can express.
 	ErrTooManyHops = errors.New("too many hops in reply path")
 
+	// ErrTrailingData is returned when a reply path record is longer than
+	// the reply path that it contains.
+	ErrTrailingData = errors.New("unexpected data after reply path")
+
 	// ErrDataTooLong is returned when we try to encode data that is longer
 	// than its length prefix can express.
 	ErrDataTooLong = errors.New("data exceeds maximum length")
@@ -327,6 +331,11 @@ func decodeReplyPath(r io.Reader, val interface{}, buf *[8]byte,
 	l uint64) error {
 
 	if p, ok := val.(*ReplyPath); ok && l > 35 {
+		// Restrict our reads to the contents of this record, because
+		// the reader provided holds the remainder of the tlv stream.
+		record := &io.LimitedReader{R: r, N: int64(l)}
+		r = record
+
 		err := tlv.DPubKey(r, &p.FirstNodeID, buf, 33)
 		if err != nil {
 			return fmt.Errorf("decode first id: %w", err)
@@ -355,6 +364,11 @@ func decodeReplyPath(r io.Reader, val interface{}, buf *[8]byte,
 			p.Hops = append(p.Hops, hop)
 		}
 
+		if record.N != 0 {
+			return fmt.Errorf("%w: %v bytes", ErrTrailingData,
+				record.N)
+		}
+
 		return nil
 	}
 
-- 
2.43.0


From eab635349f94a77b443aed720bbc0daa670d4344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 06/23] fix: allow invoice requests for offers with a one-sided
 quantity range

---
 lnwire/bolt12_invoice_request.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lnwire/bolt12_invoice_request.go b/lnwire/bolt12_invoice_request.go
index e89ee4d..5179b87 100644
--- a/lnwire/bolt12_invoice_request.go
+++ b/lnwire/bolt12_invoice_request.go
@@ -138,7 +138,7 @@ func NewInvoiceRequest(offer *Offer, amount lnwire.MilliSatoshi,
 		haveMinQuantity = offer.QuantityMin != 0
 		haveMaxQuantity = offer.QuantityMax != 0
 
-		quantitySpecified = haveMinQuantity && haveMaxQuantity
+		quantitySpecified = haveMinQuantity || haveMaxQuantity
 	)
 
 	// Fail if the offer has a quantity range but the request does not set
-- 
2.43.0


From a808db35468d001fb4b299d227dc8aa0c4dd44fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 07/23] fix: reject joins that are only surrounded by
 whitespace in offers

---
 offers/bech32.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/offers/bech32.go b/offers/bech32.go
index dd22b92..ce09112 100644
--- a/offers/bech32.go
+++ b/offers/bech32.go
@@ -120,18 +120,18 @@ func stripOffer(offer string) (string, error) {
 	parts := strings.Split(offer, "+")
 
 	for i, part := range parts {
-		// If any of our parts are empty, we either had consecutive or
-		// starting / ending "+" in our string.
-		if part == "" {
-			return "", ErrIncorrectSplit
-		}
-
 		// We should allow whitespace following a "+" character. Trim
 		// all whitespace so that we can check that except for spaces,
 		// all other characters are bech32. We replace the entry in our
 		// slice to strip out these paces.
 		parts[i] = strings.TrimSpace(part)
 
+		// If any of our parts are empty, we either had consecutive or
+		// starting / ending "+" in our string.
+		if parts[i] == "" {
+			return "", ErrIncorrectSplit
+		}
+
 		// Check that each split is in our charset.
 		if err := checkASCII(parts[i]); err != nil {
 			return "", fmt.Errorf("%w: part: %v", err, part)
-- 
2.43.0


From bd54875a2ada059636089e1b18531c9b405fea0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 08/23] fix: return a coded error for offers that fail to
 decode

---
 rpcserver/impl_decodeoffer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rpcserver/impl_decodeoffer.go b/rpcserver/impl_decodeoffer.go
index f6a412c..91653fd 100644
--- a/rpcserver/impl_decodeoffer.go
+++ b/rpcserver/impl_decodeoffer.go
@@ -32,7 +32,9 @@ func (s *Server) DecodeOffer(ctx context.Context,
 
 	offer, err := offers.DecodeOfferStr(offerStr)
 	if err != nil {
-		return nil, err
+		return nil, status.Errorf(
+			codes.InvalidArgument, "invalid offer: %v", err,
+		)
 	}
 
 	return composeDecodeOfferResponse(offer)
-- 
2.43.0


From ac098d6d5b2089b948ac72a306550a463de8503a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 09/23] fix: unblock subscription handler before deregistering
 it

---
 rpcserver/impl_subscribe_onion_payload.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/rpcserver/impl_subscribe_onion_payload.go b/rpcserver/impl_subscribe_onion_payload.go
index 9427e0b..aee29c5 100644
--- a/rpcserver/impl_subscribe_onion_payload.go
+++ b/rpcserver/impl_subscribe_onion_payload.go
@@ -62,6 +62,12 @@ func handleSubscribeOnionPayload(ctx context.Context, tlvType tlv.Type,
 	messenger onionmsg.OnionMessenger,
 	send func(*offersrpc.SubscribeOnionPayloadResponse) error) error {
 
+	// Create a context that is canceled when we exit for any reason, so
+	// that our handler never blocks the messenger once we have stopped
+	// consuming messages.
+	ctx, cancel := context.WithCancel(ctx)
+	defer cancel()
+
 	// Create an onion message handler which will consume messages from
 	// our incoming channel, dropping messages if our server is shut down
 	// or the client cancels their context.
@@ -96,6 +102,11 @@ func handleSubscribeOnionPayload(ctx context.Context, tlvType tlv.Type,
 	}
 
 	defer func() {
+		// Unblock our handler before we deregister it, because the
+		// messenger can't process our request while it is delivering a
+		// message to us.
+		cancel()
+
 		if err := messenger.DeregisterHandler(tlvType); err != nil {
 			log.Errorf("Deregister handler: %v failed: %v",
 				tlvType, err)
-- 
2.43.0


From 5d11f3d3d33c3637f85d699c1ea7115844218ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 10/23] fix: do not overflow lnd connection retry count

---
 boltnd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boltnd.go b/boltnd.go
index 6ad6cdd..d25c860 100644
--- a/boltnd.go
+++ b/boltnd.go
@@ -71,7 +71,7 @@ func (b *Boltnd) Start() error {
 	// We allow zero retires, so we iterate with retries + 1 to allow at
 	// least one connection attempt for lnd.
 	var connErr error
-	for i := 0; i < int(b.cfg.LNDRetires+1); i++ {
+	for i := 0; i < int(b.cfg.LNDRetires)+1; i++ {
 		log.Infof("Attempt: %v to connect to lnd", i)
 
 		b.lnd, connErr = lndclient.NewLndServices(b.cfg.LndClientCfg)
-- 
2.43.0


From 4e9c5607972d96b9596f4778f073bdcdbc4f1972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 11/23] fix: error out on routes that exceed the onion packet
 hop limit

---
 routes/blinded.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/routes/blinded.go b/routes/blinded.go
index aa904e8..012e16d 100644
--- a/routes/blinded.go
+++ b/routes/blinded.go
@@ -53,6 +53,10 @@ var (
 	// the final hop in a path provided for a send to a blinded route.
 	ErrNoIntroductionNode = errors.New("introduction node should be " +
 		"final hop when sending to a blinded path")
+
+	// ErrTooManyHops is returned when a route has more hops than we can
+	// fit in an onion packet.
+	ErrTooManyHops = errors.New("too many hops for onion packet")
 )
 
 // BlindedRouteGenerator produces blinded routes.
@@ -563,6 +567,11 @@ func blindedToSphinx(blindedRoute *sphinx.BlindedPath,
 		extraHopCount = len(extraHops)
 	)
 
+	if ourHopCount+extraHopCount > sphinx.NumMaxHops {
+		return nil, fmt.Errorf("%w: %v hops", ErrTooManyHops,
+			ourHopCount+extraHopCount)
+	}
+
 	// Fill in the blinded node id and encrypted data for all hops. This
 	// requirement differs from blinded hops used for payments, where we
 	// don't use the blinded introduction node id. However, since onion
@@ -693,6 +702,11 @@ func createOnionMessage(sphinxPath *sphinx.PaymentPath,
 func directToBlinded(req *BlindedRouteRequest) (*BlindedRouteResponse, error) {
 	var sphinxPath sphinx.PaymentPath
 
+	if len(req.blindedDestination.Hops) > sphinx.NumMaxHops {
+		return nil, fmt.Errorf("%w: %v hops", ErrTooManyHops,
+			len(req.blindedDestination.Hops))
+	}
+
 	for i, hop := range req.blindedDestination.Hops {
 		sphinxHop, err := createSphinxHop(
 			*hop.BlindedNodeID,
-- 
2.43.0


From b1bc07bf1ba01502d43312a8cbc3a95ac02690f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 12/23] fix: include final payloads and reply path in direct
 sends to blinded paths

---
 routes/blinded.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/routes/blinded.go b/routes/blinded.go
index 012e16d..6484e90 100644
--- a/routes/blinded.go
+++ b/routes/blinded.go
@@ -708,12 +708,18 @@ func directToBlinded(req *BlindedRouteRequest) (*BlindedRouteResponse, error) {
 	}
 
 	for i, hop := range req.blindedDestination.Hops {
-		sphinxHop, err := createSphinxHop(
-			*hop.BlindedNodeID,
-			&lnwire.OnionMessagePayload{
-				EncryptedData: hop.EncryptedData,
-			},
-		)
+		payload := &lnwire.OnionMessagePayload{
+			EncryptedData: hop.EncryptedData,
+		}
+
+		// If we're on the last hop, add our optional final payload
+		// and reply path.
+		if i == len(req.blindedDestination.Hops)-1 {
+			payload.FinalHopPayloads = req.finalPayloads
+			payload.ReplyPath = req.replyPath
+		}
+
+		sphinxHop, err := createSphinxHop(*hop.BlindedNodeID, payload)
 		if err != nil {
 			return nil, fmt.Errorf("sphinx hop "+
 				"%v: %w", i, err)
-- 
2.43.0


From 034615cdd5d506c230050508b538724c53d50f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 13/23] fix: fail handler registration once the event loop has
 exited

---
 onionmsg/messenger.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/onionmsg/messenger.go b/onionmsg/messenger.go
index bba4af2..a277106 100644
--- a/onionmsg/messenger.go
+++ b/onionmsg/messenger.go
@@ -167,6 +167,10 @@ type Messenger struct {
 	// signal to calling code that it should gracefully exit.
 	requestShutdown func(err error)
 
+	// loopDone is closed when our main event loop exits, after which no
+	// more handler registrations will be processed.
+	loopDone chan struct{}
+
 	wg   sync.WaitGroup
 	quit chan struct{}
 }
@@ -187,6 +191,7 @@ func NewOnionMessenger(params *chaincfg.Params, lnd LndOnionMsg,
 		onionMsgHandlers:    make(map[tlv.Type]OnionMessageHandler),
 		handlerRegistration: make(chan *registerHandler),
 		requestShutdown:     shutdown,
+		loopDone:            make(chan struct{}),
 		quit:                make(chan struct{}),
 	}
 }
@@ -207,6 +212,8 @@ func (m *Messenger) Start() error {
 		defer m.wg.Done()
 
 		err := m.manageOnionMessages(context.Background())
+		close(m.loopDone)
+
 		if err != nil && err != ErrShuttingDown {
 			m.requestShutdown(err)
 		}
@@ -281,6 +288,10 @@ func (m *Messenger) handleRegistration(request *registerHandler,
 	select {
 	case m.handlerRegistration <- request:
 
+	case <-m.loopDone:
+		return fmt.Errorf("%w: could not %v: %v",
+			ErrShuttingDown, action, request.tlvType)
+
 	case <-m.quit:
 		return fmt.Errorf("%w: could not %v: %v",
 			ErrShuttingDown, action, request.tlvType)
-- 
2.43.0


From fcfabc214331934664a76654de1e4995488f5fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 14/23] fix: build merkle tree level by level for odd branch
 counts

---
 lnwire/bolt12_merkle.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/lnwire/bolt12_merkle.go b/lnwire/bolt12_merkle.go
index 8f17235..f5350ee 100644
--- a/lnwire/bolt12_merkle.go
+++ b/lnwire/bolt12_merkle.go
@@ -125,20 +125,28 @@ func MerkleRoot(records []tlv.Record) (lntypes.Hash, error) {
 	return lntypes.MakeHash(hash[:])
 }
 
-// CalculateRoot combines a set of branches into a merkle root.
+// CalculateRoot combines a set of branches into a merkle root. Branches are
+// combined in pairs, one level of the tree at a time. When a level has an odd
+// number of branches the last one moves up to the next level unchanged, so that
+// the deepest part of the tree is always on the lowest order leaves.
 func CalculateRoot(branches []*TLVBranch) chainhash.Hash {
 	for len(branches) != 1 {
-		left, right := orderNodes(branches[0], branches[1])
+		level := make([]*TLVBranch, 0, (len(branches)+1)/2)
 
-		newBranch := &TLVBranch{
-			left:  left,
-			right: right,
+		for i := 0; i+1 < len(branches); i += 2 {
+			left, right := orderNodes(branches[i], branches[i+1])
+
+			level = append(level, &TLVBranch{
+				left:  left,
+				right: right,
+			})
+		}
+
+		if len(branches)%2 != 0 {
+			level = append(level, branches[len(branches)-1])
 		}
 
-		// Remove the individual branches from our set, and add our
-		// combined branch.
-		branches = branches[2:]
-		branches = append(branches, newBranch)
+		branches = level
 	}
 
 	// We exit when we only have one branch left, this is our root.
-- 
2.43.0


From 2b5ee82a2f96cea3edb1fdf1841dbff7839675a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 15/23] fix: calculate the merkle root of decoded records from
 their raw bytes

---
 lnwire/bolt12_invoice.go         |  2 +-
 lnwire/bolt12_invoice_request.go |  2 +-
 lnwire/bolt12_offer.go           |  2 +-
 lnwire/bolt12_shared.go          | 30 ++++++++++++++----------------
 4 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/lnwire/bolt12_invoice.go b/lnwire/bolt12_invoice.go
index f5f174b..5a77579 100644
--- a/lnwire/bolt12_invoice.go
+++ b/lnwire/bolt12_invoice.go
@@ -398,7 +398,7 @@ func DecodeInvoice(b []byte) (*Invoice, error) {
 		i.Signature = &signature
 	}
 
-	i.MerkleRoot, err = decodeMerkleRoot(i, tlvMap)
+	i.MerkleRoot, err = decodeMerkleRoot(b)
 	if err != nil {
 		return nil, fmt.Errorf("merkle root: %w", err)
 	}
diff --git a/lnwire/bolt12_invoice_request.go b/lnwire/bolt12_invoice_request.go
index 5179b87..dbbae36 100644
--- a/lnwire/bolt12_invoice_request.go
+++ b/lnwire/bolt12_invoice_request.go
@@ -404,7 +404,7 @@ func DecodeInvoiceRequest(b []byte) (*InvoiceRequest, error) {
 		i.Signature = &signature
 	}
 
-	i.MerkleRoot, err = decodeMerkleRoot(i, tlvMap)
+	i.MerkleRoot, err = decodeMerkleRoot(b)
 	if err != nil {
 		return nil, fmt.Errorf("merkle root: %w", err)
 	}
diff --git a/lnwire/bolt12_offer.go b/lnwire/bolt12_offer.go
index c90134b..030cc75 100644
--- a/lnwire/bolt12_offer.go
+++ b/lnwire/bolt12_offer.go
@@ -342,7 +342,7 @@ func DecodeOffer(offerBytes []byte) (*Offer, error) {
 		offer.Signature = &signature
 	}
 
-	offer.MerkleRoot, err = decodeMerkleRoot(offer, tlvMap)
+	offer.MerkleRoot, err = decodeMerkleRoot(offerBytes)
 	if err != nil {
 		return nil, fmt.Errorf("merkle root: %w", err)
 	}
diff --git a/lnwire/bolt12_shared.go b/lnwire/bolt12_shared.go
index 47028c1..474575b 100644
--- a/lnwire/bolt12_shared.go
+++ b/lnwire/bolt12_shared.go
@@ -61,29 +61,27 @@ type tlvTree interface {
 }
 
 // decodeMerkleRoot produces a tlv merkle tree root for a tlv stream that we
-// have decoded. Since the sender may have populated the tree with odd tlv
-// records that are unknown to us, we include odd unknown records that were
-// parsed but not understood (by our decoding, the sender would have known
-// them) in our tree.
-func decodeMerkleRoot(recordProducer tlvTree,
-	tlvMap map[tlv.Type][]byte) (lntypes.Hash, error) {
-
-	populatedRecords, err := recordProducer.records()
+// have decoded. The sender's root covers the records exactly as they were sent,
+// so we use the raw records in the stream rather than re-encoding the fields
+// that we decoded. This includes odd records that are unknown to us, and values
+// that we would omit or encode differently (such as explicit empty values).
+func decodeMerkleRoot(tlvBytes []byte) (lntypes.Hash, error) {
+	// A stream that does not know of any records returns the raw value of
+	// each record that it parses.
+	stream, err := tlv.NewStream()
 	if err != nil {
-		return lntypes.Hash{}, fmt.Errorf("get records: %w", err)
+		return lntypes.Hash{}, fmt.Errorf("new stream: %w", err)
 	}
 
-	root, err := MerkleRoot(
-		append(populatedRecords, unknownRecordsFromParsed(tlvMap)...),
-	)
+	tlvMap, err := stream.DecodeWithParsedTypes(bytes.NewReader(tlvBytes))
 	if err != nil {
-		return lntypes.Hash{}, fmt.Errorf("merkle root: %w", err)
+		return lntypes.Hash{}, fmt.Errorf("decode records: %w", err)
 	}
 
-	hash, err := lntypes.MakeHash(root[:])
+	root, err := MerkleRoot(unknownRecordsFromParsed(tlvMap))
 	if err != nil {
-		return lntypes.Hash{}, fmt.Errorf("make hash: %w", err)
+		return lntypes.Hash{}, fmt.Errorf("merkle root: %w", err)
 	}
 
-	return hash, nil
+	return root, nil
 }
-- 
2.43.0


From 0e5336b18830295c769a75e5a0beabd5582519e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 16/23] fix: do not length prefix features inside of their tlv
 record

---
 lnwire/bolt12_shared.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lnwire/bolt12_shared.go b/lnwire/bolt12_shared.go
index 474575b..ff9a503 100644
--- a/lnwire/bolt12_shared.go
+++ b/lnwire/bolt12_shared.go
@@ -25,7 +25,7 @@ func encodeFetauresRecord(recordType tlv.Type,
 
 	w := new(bytes.Buffer)
 
-	if err := features.Encode(w); err != nil {
+	if err := features.EncodeBase256(w); err != nil {
 		return nil, fmt.Errorf("encode features: %w", err)
 	}
 
@@ -45,7 +45,9 @@ func decodeFeaturesRecord(decodedFeatures []byte,
 
 	// If we decoded a value for our feature vector, decode it.
 	if found {
-		err := rawFeatures.Decode(bytes.NewReader(decodedFeatures))
+		err := rawFeatures.DecodeBase256(
+			bytes.NewReader(decodedFeatures), len(decodedFeatures),
+		)
 		if err != nil {
 			return nil, fmt.Errorf("raw features decode: %w", err)
 		}
-- 
2.43.0


From 05737e4f937f458ebb2715cbbb29cdf1a244e22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:44 +0000
Subject: [PATCH 17/23] fix: encode invoice times and cltv expiry as truncated
 integers

---
 lnwire/bolt12_invoice.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lnwire/bolt12_invoice.go b/lnwire/bolt12_invoice.go
index 5a77579..0fd93ab 100644
--- a/lnwire/bolt12_invoice.go
+++ b/lnwire/bolt12_invoice.go
@@ -248,7 +248,7 @@ func (i *Invoice) records() ([]tlv.Record, error) {
 	if !i.CreatedAt.IsZero() {
 		created := uint64(i.CreatedAt.Unix())
 
-		record := tlv.MakePrimitiveRecord(invCreatedAtType, &created)
+		record := tu64Record(invCreatedAtType, &created)
 		records = append(records, record)
 	}
 
@@ -263,12 +263,12 @@ func (i *Invoice) records() ([]tlv.Record, error) {
 	if i.RelativeExpiry != 0 {
 		expiry := uint64(i.RelativeExpiry.Seconds())
 
-		record := tlv.MakePrimitiveRecord(invRelativeExpiryType, &expiry)
+		record := tu64Record(invRelativeExpiryType, &expiry)
 		records = append(records, record)
 	}
 
 	if i.CLTVExpiry != 0 {
-		record := tlv.MakePrimitiveRecord(inCLTVType, &i.CLTVExpiry)
+		record := tu64Record(inCLTVType, &i.CLTVExpiry)
 		records = append(records, record)
 	}
 
@@ -328,10 +328,10 @@ func DecodeInvoice(b []byte) (*Invoice, error) {
 		tu64Record(invQuantityType, &i.Quantity),
 		tlv.MakePrimitiveRecord(invPayerKeyType, &i.PayerKey),
 		tlv.MakePrimitiveRecord(invPayerNoteType, &payerNote),
-		tlv.MakePrimitiveRecord(invCreatedAtType, &createdAt),
+		tu64Record(invCreatedAtType, &createdAt),
 		tlv.MakePrimitiveRecord(invPaymentHashType, &payHash),
-		tlv.MakePrimitiveRecord(invRelativeExpiryType, &relativeExpiry),
-		tlv.MakePrimitiveRecord(inCLTVType, &i.CLTVExpiry),
+		tu64Record(invRelativeExpiryType, &relativeExpiry),
+		tu64Record(inCLTVType, &i.CLTVExpiry),
 		tlv.MakePrimitiveRecord(invPayerInfoType, &i.PayerInfo),
 		tlv.MakePrimitiveRecord(invSigType, &signature),
 	}
-- 
2.43.0


From 8854768b595827706af33532873baaa4b8d07d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:32 +0000
Subject: [PATCH 18/23] fix: report an offer's features as a bare bit vector
 over rpc

The length prefix that lnd's wire encoding adds is no part of the bit
vector that the api documents.
---
 rpcserver/impl_decodeoffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcserver/impl_decodeoffer.go b/rpcserver/impl_decodeoffer.go
index 91653fd..d76bd1b 100644
--- a/rpcserver/impl_decodeoffer.go
+++ b/rpcserver/impl_decodeoffer.go
@@ -71,7 +71,7 @@ func composeDecodeOfferResponse(offer *lnwire.Offer) (
 	if offer.Features != nil {
 		buf := new(bytes.Buffer)
 
-		if err := offer.Features.Encode(buf); err != nil {
+		if err := offer.Features.EncodeBase256(buf); err != nil {
 			// We really shouldn't run into issues encoding our
 			// feature vector, so we return an internal error if
 			// something goes wrong here.
-- 
2.43.0


From efc2c79aa2b6118ef44eda77a4ac74e3c5c366cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:53 +0000
Subject: [PATCH 19/23] fix: refuse invoices whose relative expiry overflows a
 duration

---
 lnwire/bolt12_invoice.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lnwire/bolt12_invoice.go b/lnwire/bolt12_invoice.go
index 0fd93ab..630bbb7 100644
--- a/lnwire/bolt12_invoice.go
+++ b/lnwire/bolt12_invoice.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"math"
 	"time"
 
 	"github.com/btcsuite/btcd/btcec/v2"
@@ -75,6 +76,10 @@ var (
 	// payment hash tlv.
 	ErrNoPaymentHash = errors.New("invoice requires payment hash")
 
+	// ErrExpiryTooLarge is returned when an invoice's relative expiry can't
+	// be expressed as a duration.
+	ErrExpiryTooLarge = errors.New("relative expiry too large")
+
 	// ErrNoAmount is returned when an invoice doesn't have an amount tlv.
 	ErrNoAmount = errors.New("invoice requires amount")
 )
@@ -391,6 +396,13 @@ func DecodeInvoice(b []byte) (*Invoice, error) {
 	}
 
 	if _, ok := tlvMap[invRelativeExpiryType]; ok {
+		// Durations are counted in nanoseconds, so very large expiries
+		// would silently overflow.
+		if relativeExpiry > uint64(math.MaxInt64/time.Second) {
+			return nil, fmt.Errorf("%w: %v seconds",
+				ErrExpiryTooLarge, relativeExpiry)
+		}
+
 		i.RelativeExpiry = time.Second * time.Duration(relativeExpiry)
 	}
 
-- 
2.43.0


From faa042559fbd98ee899181e00551896ea61822be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:54 +0000
Subject: [PATCH 20/23] fix: decode truncated integers of value zero

A truncated integer of value zero is encoded in zero bytes, which our
decoder refused. Offers and invoices with a time at the epoch, or an
expiry of less than a second, could be encoded but not decoded.
---
 lnwire/tu64.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lnwire/tu64.go b/lnwire/tu64.go
index 2e085dc..f902e5d 100644
--- a/lnwire/tu64.go
+++ b/lnwire/tu64.go
@@ -18,12 +18,13 @@ func encodeTU64(w io.Writer, val interface{}, buf *[8]byte) error {
 	return tlv.NewTypeForEncodingErr(val, "tu64")
 }
 
-// decodeTU64 decodes a truncated uint64 tlv.
+// decodeTU64 decodes a truncated uint64 tlv. A value of zero is encoded without
+// any bytes.
 //
 // Note: lnd doesn't have this functionality on its own yet (only in mpp decode)
 // so it is added here.
 func decodeTU64(r io.Reader, val interface{}, buf *[8]byte, l uint64) error {
-	if v, ok := val.(*uint64); ok && 1 <= l && l <= 8 {
+	if v, ok := val.(*uint64); ok && l <= 8 {
 		if err := tlv.DTUint64(r, v, buf, l); err != nil {
 			return err
 		}
-- 
2.43.0


From d4f6619f777b7b9fb519a709754814c178d704c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:08 +0000
Subject: [PATCH 21/23] fix: close the connection to lnd if the rpc server
 fails to stop

A second stop is refused, so the connection was never closed if the first
one returned early.
---
 boltnd.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/boltnd.go b/boltnd.go
index d25c860..9b59287 100644
--- a/boltnd.go
+++ b/boltnd.go
@@ -108,14 +108,18 @@ func (b *Boltnd) Stop() error {
 
 	log.Info("Stopping Boltnd")
 
-	if err := b.rpcServer.Stop(); err != nil {
-		return fmt.Errorf("could not stop rpcserver: %v", err)
-	}
+	err := b.rpcServer.Stop()
 
+	// Close our connection to lnd even if we could not cleanly stop our
+	// server, we will not get another chance to do so.
 	if b.lnd != nil {
 		b.lnd.Close()
 	}
 
+	if err != nil {
+		return fmt.Errorf("could not stop rpcserver: %v", err)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From e27cfb2da7e198193f09114c2fc5662ecfd62f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:08 +0000
Subject: [PATCH 22/23] fix: hand payloads to their handlers if another handler
 fails

A message can hold payloads for several handlers, for example those of
independent subscriptions. When one of them failed, because its client had
just gone, the handlers after it did not get theirs.
---
 onionmsg/messenger.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/onionmsg/messenger.go b/onionmsg/messenger.go
index a277106..aae2631 100644
--- a/onionmsg/messenger.go
+++ b/onionmsg/messenger.go
@@ -868,7 +868,10 @@ func handleOnionMessage(msg lndclient.CustomMessage,
 		}
 
 		// For each of our final hop payloads, identify a handling
-		// function (if any) and handoff the payload.
+		// function (if any) and handoff the payload. If a handler
+		// fails, we still hand the other payloads to their handlers
+		// and report the first failure afterwards.
+		var handlerErr error
 		for _, extraData := range payload.FinalHopPayloads {
 			handler, ok := kit.handlers[extraData.TLVType]
 			if !ok {
@@ -884,14 +887,14 @@ func handleOnionMessage(msg lndclient.CustomMessage,
 			if err := handler(
 				payload.ReplyPath, payload.EncryptedData,
 				extraData.Value,
-			); err != nil {
-				return fmt.Errorf("handler for: %v/%x "+
+			); err != nil && handlerErr == nil {
+				handlerErr = fmt.Errorf("handler for: %v/%x "+
 					"failed: %w", extraData.TLVType,
 					extraData.Value, err)
 			}
 		}
 
-		return nil
+		return handlerErr
 
 	// We don't support forwarding at present, so we fail if an onion with
 	// more hops is received.
-- 
2.43.0


From 6779d7a14e4d1b339fda24b2df42d4901df2fff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:16 +0000
Subject: [PATCH 23/23] fix: refuse to connect to nodes that we have no
 announcement for

---
 onionmsg/messenger.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/onionmsg/messenger.go b/onionmsg/messenger.go
index aae2631..e750f3d 100644
--- a/onionmsg/messenger.go
+++ b/onionmsg/messenger.go
@@ -482,7 +482,9 @@ func (m *Messenger) lookupAndConnect(ctx context.Context,
 		return fmt.Errorf("could not lookup node: %w", err)
 	}
 
-	if len(info.Addresses) == 0 {
+	// If we only know the node from its channels, we don't have its node
+	// announcement (and thus its addresses).
+	if info.Node == nil || len(info.Addresses) == 0 {
 		return fmt.Errorf("%w: %v", ErrNoAddresses, peer)
 	}
 
-- 
2.43.0

