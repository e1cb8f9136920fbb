package onionmsg

import (
	"errors"
	"testing"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/chaincfg"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/testutils"
	"github.com/lightninglabs/lndclient"
	sphinx "github.com/lightningnetwork/lightning-onion"
	"github.com/lightningnetwork/lnd/tlv"
	"github.com/stretchr/testify/require"
)

// Registration after the event loop has gone away must return.
func TestFindingRegisterAfterLoopExit(t *testing.T) {
	lnd := testutils.NewMockLnd()
	priv := testutils.GetPrivkeys(t, 1)[0]
	errs := make(chan error, 1)
	testutils.MockSubscribeCustomMessages(lnd.Mock,
		make(chan lndclient.CustomMessage), errs, nil)
	down := make(chan struct{})
	m := NewOnionMessenger(&chaincfg.RegressionNetParams, lnd,
		&sphinx.PrivKeyECDH{PrivKey: priv},
		func(error) { close(down) })
	require.NoError(t, m.Start())
	errs <- errors.New("stream died")
	<-down
	res := make(chan error, 1)
	go func() {
		res <- m.RegisterHandler(101,
			func(*lnwire.ReplyPath, []byte, []byte) error { return nil })
	}()
	select {
	case err := <-res:
		require.Error(t, err)
	case <-time.After(2 * time.Second):
		t.Fatal("registration blocked forever")
	}
}

// Two handlers, the first of which fails: the second still gets its payload.
func TestFindingHandlerFailure(t *testing.T) {
	got := false
	kit := &onionMessageKit{
		processOnion: func([]byte) (*btcec.PublicKey, *sphinx.ProcessedPacket, error) {
			return nil, &sphinx.ProcessedPacket{Action: sphinx.ExitNode}, nil
		},
		decodePayload: func([]byte) (*lnwire.OnionMessagePayload, error) {
			return &lnwire.OnionMessagePayload{FinalHopPayloads: []*lnwire.FinalHopPayload{
				{TLVType: 101}, {TLVType: 103},
			}}, nil
		},
		handlers: map[tlv.Type]OnionMessageHandler{
			101: func(*lnwire.ReplyPath, []byte, []byte) error { return errors.New("gone") },
			103: func(*lnwire.ReplyPath, []byte, []byte) error { got = true; return nil },
		},
	}
	require.Error(t, handleOnionMessage(lndclient.CustomMessage{}, kit))
	require.True(t, got)
}
