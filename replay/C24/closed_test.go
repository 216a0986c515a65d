// pkg: session
package session

import (
	"context"
	"strings"
	"testing"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/cenkalti/backoff/v4"
)

func verifC24Closed(t *testing.T, what string, l *link, conns int) {
	msg := amqp.NewMessage([]byte("x"))
	for name, op := range map[string]func(context.Context) error{
		"send":    func(ctx context.Context) error { return l.Send(ctx, msg) },
		"receive": func(ctx context.Context) error { _, err := l.Next(ctx); return err },
		"accept":  func(ctx context.Context) error { return l.Accept(ctx, msg) },
	} {
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
		var err error
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Errorf("%s: %s panics: %v", what, name, r)
				}
			}()
			if !vWithin(2*time.Second, func() { err = op(ctx) }) {
				t.Errorf("%s: %s on a closed link blocks", what, name)
				err = errLinkClosed
			}
		}()
		cancel()
		if err == nil || !strings.Contains(err.Error(), "link closed") {
			t.Errorf("%s: %s on a closed link: %v", what, name, err)
		}
	}
	if n := len(l.sessionErrors); n != 0 {
		t.Errorf("%s: closed link reported %d failures", what, n)
	}
}

func TestVerifC24Closed(t *testing.T) {
	fast := backoff.NewConstantBackOff(10 * time.Millisecond)
	// never connected
	c := NewContainer("amqp://127.0.0.1:1", ContainerConfig{}).(*container)
	l := c.NewReceiver("a", ReceiverOptions{}).(*link)
	if err := l.Close(context.Background()); err != nil {
		t.Errorf("close: %s", err)
	}
	verifC24Closed(t, "never connected", l, 0)

	// close while an operation waits for a session
	for _, name := range []string{"send", "receive"} {
		s := newVServer(t)
		s.refuse = func(n int) bool { return n < 8 }
		c = NewContainer(s.url(), ContainerConfig{BackOff: fast}).(*container)
		ctx, cancel := context.WithCancel(context.Background())
		l = c.NewReceiver("a", ReceiverOptions{}).(*link)
		res := make(chan error, 1)
		go func() {
			var err error
			if name == "send" {
				err = l.Send(ctx, amqp.NewMessage([]byte("x")))
			} else {
				_, err = l.Next(ctx)
			}
			res <- err
		}()
		time.Sleep(10 * time.Millisecond)
		l.Close(ctx)
		c.Start(ctx)
		select {
		case err := <-res:
			if err == nil || !strings.Contains(err.Error(), "link closed") {
				t.Errorf("waiting %s after close: %v", name, err)
			}
		case <-time.After(5 * time.Second):
			t.Errorf("waiting %s does not end after close", name)
		}
		if n := len(s.attached()); n != 0 {
			t.Errorf("closed link attached to a later session (%d)", n)
		}
		cancel()
	}

	// closed after use, then across a reconnection
	s := newVServer(t)
	s.onCredit = func(l *vLink) {
		if l.next == 0 {
			l.transfer([]byte("m"))
		}
	}
	c = NewContainer(s.url(), ContainerConfig{BackOff: fast}).(*container)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	c.Start(ctx)
	r := c.NewReceiver("rcv", ReceiverOptions{}).(*link)
	snd := c.NewSender("snd", SenderOptions{}).(*link)
	if err := snd.Send(ctx, amqp.NewMessage([]byte("x"))); err != nil {
		t.Errorf("send: %s", err)
	}
	m, err := r.Next(ctx)
	if err != nil {
		t.Errorf("receive: %s", err)
	} else if err := r.Accept(ctx, m); err != nil {
		t.Errorf("accept: %s", err)
	}
	r.Close(ctx)
	snd.Close(ctx)
	vWait(2*time.Second, func() bool { s.mu.Lock(); defer s.mu.Unlock(); return len(s.detaches) > 0 })
	s.mu.Lock()
	if len(s.detaches) == 0 || s.detaches[0] != "rcv" {
		t.Errorf("close did not close the open receiver: %v", s.detaches)
	}
	s.mu.Unlock()
	before := len(s.attached())
	verifC24Closed(t, "receiver", r, 1)
	verifC24Closed(t, "sender", snd, 1)
	other := c.NewSender("other", SenderOptions{})
	s.kill()
	vWait(5*time.Second, func() bool {
		octx, cancel := context.WithTimeout(ctx, 300*time.Millisecond)
		defer cancel()
		return other.Send(octx, amqp.NewMessage([]byte("y"))) == nil
	})
	verifC24Closed(t, "receiver after reconnect", r, 1)
	verifC24Closed(t, "sender after reconnect", snd, 1)
	for _, a := range s.attached()[before:] {
		if a.address != "other" {
			t.Errorf("closed link %s attached again", a.address)
		}
	}
	if r.Close(ctx) != nil {
		t.Errorf("second close fails")
	}
}
