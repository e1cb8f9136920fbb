package boltnd

import (
	"context"
	"testing"

	"github.com/stretchr/testify/require"
)

// The largest retry count must still try at least once.
func TestFindingRetryOverflow(t *testing.T) {
	b, err := NewBoltnd()
	require.NoError(t, err)
	b.cfg.LNDRetires = 255
	b.cfg.LNDWait = 0
	b.cfg.LndClientCfg.LndAddress = "127.0.0.1:1"
	b.cfg.LndClientCfg.TLSPath = "/nonexistent"
	require.NotPanics(t, func() { require.Error(t, b.Start()) })
}

// A call without any macaroon must not be let through. Recorded, not repaired:
// fails.
func TestFindingNoMacaroonCheck(t *testing.T) {
	b, err := NewBoltnd()
	require.NoError(t, err)
	for uri, ops := range b.Permissions() {
		require.Error(t, b.ValidateMacaroon(
			context.Background(), ops, uri,
		))
	}
}
