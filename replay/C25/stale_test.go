// pkg: session
package session

import (
	"context"
	"errors"
	"testing"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/cenkalti/backoff/v4"
)

func TestVerifC25StaleReport(t *testing.T) {
	s := newVServer(t)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	c := NewContainer(s.url(), ContainerConfig{BackOff: backoff.NewConstantBackOff(10 * time.Millisecond)}).(*container)
	c.Start(ctx)
	if err := c.NewSender("a", SenderOptions{}).Send(ctx, amqp.NewMessage([]byte("x"))); err != nil {
		t.Fatal(err)
	}
	// two links fail on session 1: the second report arrives after the reconnection
	c.sessionErrors <- sessionErr{Generation: 1, Err: errors.New("first")}
	if !vWait(5*time.Second, func() bool { return s.connCount() == 2 }) {
		t.Fatal("no reconnection")
	}
	if err := c.NewSender("b", SenderOptions{}).Send(ctx, amqp.NewMessage([]byte("x"))); err != nil {
		t.Fatal(err)
	}
	vWait(5*time.Second, func() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.gen == 2 })
	c.sessionErrors <- sessionErr{Generation: 1, Err: errors.New("second")}
	time.Sleep(300 * time.Millisecond)
	if n := s.connCount(); n != 2 {
		t.Fatalf("a report of session 1 restarted session 2 (%d connections)", n)
	}
}
