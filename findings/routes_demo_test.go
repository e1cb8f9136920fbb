package routes

import (
	"testing"

	"bytes"
	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/chaincfg"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/testutils"
	sphinx "github.com/lightningnetwork/lightning-onion"
	"github.com/stretchr/testify/require"
)

func blindedDest(t *testing.T, n int) *lnwire.ReplyPath {
	pk := testutils.GetPubkeys(t, 2)
	d := &lnwire.ReplyPath{FirstNodeID: pk[0], BlindingPoint: pk[1]}
	for i := 0; i < n; i++ {
		d.Hops = append(d.Hops, &lnwire.BlindedHop{
			BlindedNodeID: pk[0], EncryptedData: []byte{1},
		})
	}
	return d
}

// Sending straight to a blinded destination keeps reply path and payloads.
func TestFindingDirectToBlindedPayload(t *testing.T) {
	sess := testutils.GetPrivkeys(t, 2)
	dest, err := btcec.NewPrivateKey()
	require.NoError(t, err)
	d := blindedDest(t, 1)
	d.Hops[0].BlindedNodeID = dest.PubKey()
	resp, err := CreateBlindedRoute(NewBlindedRouteRequest(
		sess[0], sess[1], []*btcec.PublicKey{d.FirstNodeID},
		blindedDest(t, 1), d, []*lnwire.FinalHopPayload{
			{TLVType: 101, Value: []byte{7}},
		},
	))
	require.NoError(t, err)
	var pkt sphinx.OnionPacket
	require.NoError(t, pkt.Decode(bytes.NewReader(resp.OnionMessage.OnionBlob)))
	r := sphinx.NewRouter(&sphinx.PrivKeyECDH{PrivKey: dest},
		&chaincfg.MainNetParams, sphinx.NewMemoryReplayLog())
	require.NoError(t, r.Start())
	defer r.Stop()
	p, err := r.ProcessOnionPacket(&pkt, nil, 0, nil)
	require.NoError(t, err)
	payload, err := lnwire.DecodeOnionMessagePayload(p.Payload.Payload)
	require.NoError(t, err)
	require.Len(t, payload.FinalHopPayloads, 1)
	require.NotNil(t, payload.ReplyPath)
}

// More hops than a sphinx packet holds: an error, not a crash.
func TestFindingTooManyHops(t *testing.T) {
	sess := testutils.GetPrivkeys(t, 2)
	d := blindedDest(t, sphinx.NumMaxHops+1)
	require.NotPanics(t, func() {
		_, err := CreateBlindedRoute(NewBlindedRouteRequest(
			sess[0], sess[1], []*btcec.PublicKey{d.FirstNodeID},
			nil, d, nil,
		))
		require.Error(t, err)
	})
	require.NotPanics(t, func() {
		hop := testutils.GetPubkeys(t, 3)[2]
		_, err := CreateBlindedRoute(NewBlindedRouteRequest(
			sess[0], sess[1], []*btcec.PublicKey{hop, d.FirstNodeID},
			nil, d, nil,
		))
		require.Error(t, err)
	})
}
