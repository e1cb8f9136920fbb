package lnwire

// Demonstrations of the genuine defects found in this package. Run with
// findings/run.sh; each test fails on the code as first found.

import (
	"bytes"
	"testing"
	"time"

	"github.com/carlakc/boltnd/testutils"
	"github.com/lightningnetwork/lnd/tlv"
	"github.com/stretchr/testify/require"
)

func rawRec(t tlv.Type, v []byte) tlv.Record {
	return tlv.MakePrimitiveRecord(t, &v)
}

func wire(t *testing.T, recs ...tlv.Record) []byte {
	s, err := tlv.NewStream(recs...)
	require.NoError(t, err)
	var b bytes.Buffer
	require.NoError(t, s.Encode(&b))
	return b.Bytes()
}

// Two unknown odd records: the root must be the root of what was received.
func TestFindingUnknownRecordsCapture(t *testing.T) {
	recs := func() []tlv.Record {
		return []tlv.Record{
			rawRec(10, []byte("desc")), rawRec(101, []byte{1}),
			rawRec(103, []byte{2}), rawRec(105, []byte{3}),
		}
	}
	o, err := DecodeOffer(wire(t, recs()...))
	require.NoError(t, err)
	want, err := MerkleRoot(recs())
	require.NoError(t, err)
	require.Equal(t, want, o.MerkleRoot)
}

// An unknown record with an empty value is still a record of the message.
func TestFindingUnknownRecordEmpty(t *testing.T) {
	recs := func() []tlv.Record {
		return []tlv.Record{
			rawRec(10, []byte("desc")), rawRec(101, []byte{}),
		}
	}
	o, err := DecodeOffer(wire(t, recs()...))
	require.NoError(t, err)
	want, err := MerkleRoot(recs())
	require.NoError(t, err)
	require.Equal(t, want, o.MerkleRoot)
}

// "marker" final hop payloads (no body) survive the trip.
func TestFindingMarkerPayload(t *testing.T) {
	b, err := EncodeOnionMessagePayload(&OnionMessagePayload{
		FinalHopPayloads: []*FinalHopPayload{{TLVType: 101}},
	})
	require.NoError(t, err)
	p, err := DecodeOnionMessagePayload(b)
	require.NoError(t, err)
	require.Len(t, p.FinalHopPayloads, 1)
}

// More hops than the count byte can express must be refused, not truncated.
func TestFindingReplyPathHopCount(t *testing.T) {
	pk := testutils.GetPubkeys(t, 1)[0]
	rp := &ReplyPath{FirstNodeID: pk, BlindingPoint: pk}
	for i := 0; i < 257; i++ {
		rp.Hops = append(rp.Hops, &BlindedHop{BlindedNodeID: pk})
	}
	_, err := EncodeOnionMessagePayload(&OnionMessagePayload{ReplyPath: rp})
	require.Error(t, err)
}

// Hop data longer than the length prefix can express must be refused.
func TestFindingBlindedHopLength(t *testing.T) {
	pk := testutils.GetPubkeys(t, 1)[0]
	rp := &ReplyPath{FirstNodeID: pk, BlindingPoint: pk, Hops: []*BlindedHop{
		{BlindedNodeID: pk, EncryptedData: make([]byte, 65537)},
	}}
	_, err := EncodeOnionMessagePayload(&OnionMessagePayload{ReplyPath: rp})
	require.Error(t, err)
}

// An onion longer than the length prefix can express must be refused.
func TestFindingOnionMessageLength(t *testing.T) {
	pk := testutils.GetPubkeys(t, 1)[0]
	var b bytes.Buffer
	require.Error(t, NewOnionMessage(pk, make([]byte, 65537)).Encode(&b, 0))
}

// The reply path must not read past (or stop short of) its own record.
func TestFindingReplyPathDesync(t *testing.T) {
	pk := testutils.GetPubkeys(t, 1)[0]
	var rp bytes.Buffer
	rp.Write(pk.SerializeCompressed())
	rp.Write(pk.SerializeCompressed())
	rp.WriteByte(1)
	rp.Write(pk.SerializeCompressed())
	rp.Write([]byte{0, 3}) // three bytes of data, in the next record
	var msg bytes.Buffer
	msg.WriteByte(2)
	msg.WriteByte(byte(rp.Len()))
	msg.Write(rp.Bytes())
	msg.Write([]byte{4, 1, 9})
	_, err := DecodeOnionMessagePayload(msg.Bytes())
	require.Error(t, err, "hop data read out of the next record")

	// Trailing bytes inside the record, which parse as another record.
	msg.Reset()
	rp.Truncate(rp.Len() - 2)
	rp.Write([]byte{0, 0})
	rp.Write([]byte{4, 1, 9})
	msg.WriteByte(2)
	msg.WriteByte(byte(rp.Len()))
	msg.Write(rp.Bytes())
	_, err = DecodeOnionMessagePayload(msg.Bytes())
	require.Error(t, err, "trailing bytes read as a record")
}

// An offer with only one end of a quantity range.
func TestFindingOneSidedQuantity(t *testing.T) {
	pk := testutils.GetPubkeys(t, 1)[0]
	_, err := NewInvoiceRequest(&Offer{QuantityMin: 2}, 1, 3, pk, "")
	require.NoError(t, err, "min only")
	_, err = NewInvoiceRequest(&Offer{QuantityMax: 4}, 1, 3, pk, "")
	require.NoError(t, err, "max only")
	_, err = NewInvoiceRequest(&Offer{QuantityMax: 4}, 1, 0, pk, "")
	require.ErrorIs(t, err, ErrQuantityRequired)
}

// With an odd number of records >= 5 the tree must still be built level by
// level, with the deepest part on the lowest order leaves (BOLT 12).
func TestFindingMerkleShape(t *testing.T) {
	var bs []*TLVBranch
	for i := byte(0); i < 9; i++ {
		b := &TLVBranch{}
		b.left[0] = i
		bs = append(bs, b)
	}
	pair := func(a, b node) *TLVBranch {
		l, r := orderNodes(a, b)
		return &TLVBranch{left: l, right: r}
	}
	five := pair(pair(pair(bs[0], bs[1]), pair(bs[2], bs[3])), bs[4])
	require.Equal(t, five.TaggedHash(), CalculateRoot(bs[:5]))
	seven := pair(pair(pair(bs[0], bs[1]), pair(bs[2], bs[3])),
		pair(pair(bs[4], bs[5]), bs[6]))
	require.Equal(t, seven.TaggedHash(), CalculateRoot(bs[:7]))
}

// The merkle root of a decoded artifact must cover its records as they were
// sent, also where we would encode them differently.
func TestFindingRootOfRawRecords(t *testing.T) {
	for name, rec := range map[string]tlv.Record{
		"empty description": rawRec(descriptionType, []byte{}),
		"zero chain":        rawRec(chainType, make([]byte, 32)),
		"padded features":   rawRec(featuresType, []byte{0, 8}),
	} {
		recs := func() []tlv.Record {
			return []tlv.Record{rec, rawRec(issuerType, []byte("x"))}
		}
		offer, err := DecodeOffer(wire(t, recs()...))
		if err != nil {
			t.Fatalf("%v: %v", name, err)
		}
		root, err := MerkleRoot(recs())
		if err != nil {
			t.Fatal(err)
		}
		if root != offer.MerkleRoot {
			t.Errorf("%v: root differs", name)
		}
	}
}

// Bolt 12: features are the bare bit vector, without a length inside of the
// record.
func TestFindingFeatureEncoding(t *testing.T) {
	offer, err := DecodeOffer(wire(t, rawRec(featuresType, []byte{8})))
	if err != nil {
		t.Fatal(err)
	}
	if !offer.Features.IsSet(3) {
		t.Error("feature bit 3 not set")
	}
}

// Bolt 12: created_at, relative_expiry and cltv are truncated integers.
func TestFindingInvoiceTimes(t *testing.T) {
	inv, err := DecodeInvoice(wire(t,
		rawRec(invCreatedAtType, []byte{1, 0}),
		rawRec(invRelativeExpiryType, []byte{60}),
		rawRec(inCLTVType, []byte{18}),
	))
	if err != nil {
		t.Fatal(err)
	}
	if inv.CreatedAt.Unix() != 256 || inv.CLTVExpiry != 18 {
		t.Error("wrong values")
	}
}

// A relative expiry that no duration can hold is refused, not wrapped around.
func TestFindingExpiryOverflow(t *testing.T) {
	inv, err := DecodeInvoice(wire(t,
		rawRec(invAmountType, []byte{1}),
		rawRec(invRelativeExpiryType, []byte{4, 0, 0, 0, 0}),
	))
	if err == nil {
		t.Errorf("expiry of %d seconds read as %v", uint64(4)<<32, inv.RelativeExpiry)
	}
}

// A truncated integer of value zero has no bytes.
func TestFindingZeroTruncatedInteger(t *testing.T) {
	b, err := EncodeOffer(&Offer{Description: "d", Expiry: time.Unix(0, 0)})
	require.NoError(t, err)
	o, err := DecodeOffer(b)
	require.NoError(t, err)
	require.True(t, o.Expiry.Equal(time.Unix(0, 0)))

	b, err = EncodeInvoice(&Invoice{Amount: 1, CreatedAt: time.Unix(0, 0)})
	require.NoError(t, err)
	i, err := DecodeInvoice(b)
	require.NoError(t, err)
	require.True(t, i.CreatedAt.Equal(time.Unix(0, 0)))

	_, err = DecodeInvoiceRequest(wire(t, rawRec(8, nil)))
	require.NoError(t, err)
}
