package offers

import (
	"testing"

	"github.com/stretchr/testify/require"
)

// A "+" that joins only whitespace joins nothing.
func TestFindingWhitespaceJoin(t *testing.T) {
	for _, s := range []string{"x+ ", " +x", "x+ +y", "+ x"} {
		_, err := stripOffer(s)
		require.ErrorIs(t, err, ErrIncorrectSplit, "%q", s)
	}
}
