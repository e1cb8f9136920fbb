package rpcserver

import (
	"context"
	"errors"
	"sync"
	"testing"
	"time"

	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/lightningnetwork/lnd/tlv"
	"github.com/stretchr/testify/require"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// loopMessenger mimics the messenger: registrations and handlers run on one
// loop.
type loopMessenger struct {
	onionmsg.OnionMessenger
	ops chan func()
	mu  sync.Mutex
	h   onionmsg.OnionMessageHandler
}

func (l *loopMessenger) do(f func()) {
	d := make(chan struct{})
	l.ops <- func() { f(); close(d) }
	<-d
}

func (l *loopMessenger) RegisterHandler(_ tlv.Type,
	h onionmsg.OnionMessageHandler) error {

	l.do(func() { l.h = h })
	return nil
}

func (l *loopMessenger) DeregisterHandler(tlv.Type) error {
	l.do(func() { l.h = nil })
	return nil
}

// A stream that fails while messages keep coming must not wedge the messenger.
func TestFindingSubscribeDeadlock(t *testing.T) {
	m := &loopMessenger{ops: make(chan func())}
	go func() {
		for op := range m.ops {
			op()
			for i := 0; i < 3 && m.h != nil; i++ {
				m.h(nil, nil, []byte{1})
			}
		}
	}()
	done := make(chan error, 1)
	go func() {
		done <- handleSubscribeOnionPayload(
			context.Background(), 101,
			make(chan onionPayloadResponse, 1),
			make(chan struct{}), m,
			func(*offersrpc.SubscribeOnionPayloadResponse) error {
				time.Sleep(50 * time.Millisecond)
				return errors.New("stream broken")
			},
		)
	}()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("subscription never ended: deregistration waits for " +
			"the loop, the loop waits in the handler")
	}
}

// A bad offer is the caller's mistake.
func TestFindingDecodeOfferCode(t *testing.T) {
	s := newServerTest(t)
	s.start()
	defer s.stop()
	_, err := s.server.DecodeOffer(context.Background(),
		&offersrpc.DecodeOfferRequest{Offer: "not an offer"})
	require.Equal(t, codes.InvalidArgument, status.Code(err))
}

// A slow subscriber must not stop the messenger. Recorded, not repaired: fails.
func TestFindingSlowSubscriberStallsMessenger(t *testing.T) {
	m := &loopMessenger{ops: make(chan func())}
	go func() {
		for op := range m.ops {
			op()
		}
	}()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	registered := make(chan struct{})
	go func() {
		handleSubscribeOnionPayload(
			ctx, 101, make(chan onionPayloadResponse, 1),
			make(chan struct{}), m,
			func(*offersrpc.SubscribeOnionPayloadResponse) error {
				<-ctx.Done()
				return ctx.Err()
			},
		)
	}()
	go func() {
		for {
			set := false
			m.do(func() { set = m.h != nil })
			if set {
				close(registered)
				return
			}
		}
	}()
	<-registered
	done := make(chan struct{})
	go func() {
		m.do(func() {
			for i := 0; i < 3; i++ {
				m.h(nil, nil, []byte{1})
			}
		})
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		t.Fatal("the messenger waits for a slow subscriber")
	}
}
