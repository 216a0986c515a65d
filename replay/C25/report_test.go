// pkg: session
package session

import (
	"context"
	"testing"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/cenkalti/backoff/v4"
)

func TestVerifC25Report(t *testing.T) {
	s := newVServer(t)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	// a session taken from a hand-driven connection, so that reports are seen
	open := func() *amqp.Session {
		conn, err := amqp.Dial(ctx, s.url(), nil)
		if err != nil {
			t.Fatal(err)
		}
		sess, err := conn.NewSession(ctx, nil)
		if err != nil {
			t.Fatal(err)
		}
		return sess
	}
	c := NewContainer(s.url(), ContainerConfig{}).(*container)
	install := func(gen int) {
		sess := open()
		c.mu.Lock()
		close(c.hasNext)
		c.sess, c.gen, c.hasNext = sess, gen, make(chan struct{})
		c.mu.Unlock()
	}
	reports := func() []sessionErr {
		var out []sessionErr
		for {
			select {
			case e := <-c.sessionErrors:
				out = append(out, e)
			default:
				return out
			}
		}
	}
	oks := func() []int {
		var out []int
		for {
			select {
			case e := <-c.notifyOK:
				out = append(out, e)
			default:
				return out
			}
		}
	}
	fail := false
	s.attachErr = func(int, bool) bool { return fail }
	short := func(d time.Duration) context.Context {
		x, cancel := context.WithTimeout(ctx, d)
		t.Cleanup(cancel)
		return x
	}
	msg := amqp.NewMessage([]byte("x"))
	for _, first := range []int{1, 5} {
		install(first)
		l := c.NewSender("s", SenderOptions{}).(*link)
		if err := l.Send(short(3*time.Second), msg); err != nil {
			t.Errorf("send: %s", err)
		}
		if o := oks(); len(o) != 1 || o[0] != first {
			t.Errorf("success reported as %v, want generation %d", o, first)
		}
		if e := reports(); len(e) != 0 {
			t.Errorf("reports without failure: %v", e)
		}
		// a failure of the session in use
		bad := true
		s.mu.Lock()
		s.settleErr = func(int) bool { return bad }
		s.mu.Unlock()
		if err := l.Send(short(3*time.Second), msg); err == nil {
			t.Errorf("failed send reports success")
		}
		s.mu.Lock()
		bad = false
		s.mu.Unlock()
		if e := reports(); len(e) != 1 || e[0].Generation != first {
			t.Errorf("failure reported as %v, want one of generation %d", e, first)
		}
		l.mu.Lock()
		if l.curr != nil || l.snd != nil || l.rcv != nil {
			t.Errorf("failed session kept")
		}
		l.mu.Unlock()
		// the same session is not used again: the link waits for another one
		if err := l.Send(short(50*time.Millisecond), msg); err == nil {
			t.Errorf("sent over the session that failed")
		}
		if e := reports(); len(e) != 0 {
			t.Errorf("context error reported: %v", e)
		}
		install(first + 1)
		if err := l.Send(short(3*time.Second), msg); err != nil {
			t.Errorf("send after recovery: %s", err)
		}
		if o := oks(); len(o) != 1 || o[0] != first+1 {
			t.Errorf("success reported as %v, want generation %d", o, first+1)
		}
		// the context's own error never tears down the session
		s.mu.Lock()
		s.onTransfer = func(*vLink, int) bool { return false }
		s.mu.Unlock()
		if err := l.Send(short(50*time.Millisecond), msg); err == nil {
			t.Errorf("unsettled send succeeded")
		}
		s.mu.Lock()
		s.onTransfer = nil
		s.mu.Unlock()
		if e := reports(); len(e) != 0 {
			t.Errorf("context error reported: %v", e)
		}
		l.mu.Lock()
		if l.curr == nil || l.snd == nil {
			t.Errorf("context error dropped the session")
		}
		l.mu.Unlock()
		// attach failures are failures of the session as well
		s.mu.Lock()
		fail = true
		s.mu.Unlock()
		l2 := c.NewSender("s2", SenderOptions{}).(*link)
		if err := l2.Send(short(3*time.Second), msg); err == nil {
			t.Errorf("refused attach succeeded")
		}
		s.mu.Lock()
		fail = false
		s.mu.Unlock()
		if e := reports(); len(e) != 1 || e[0].Generation != first+1 {
			t.Errorf("attach failure reported as %v, want one of generation %d", e, first+1)
		}
		// a link still on an older session reports that session
		var rl *vLink
		s.mu.Lock()
		s.onCredit = func(l *vLink) {
			if l.next == 0 {
				rl = l
				l.transfer([]byte("m"))
			}
		}
		s.mu.Unlock()
		r := c.NewReceiver("r", ReceiverOptions{}).(*link)
		if m, err := r.Next(short(3 * time.Second)); err != nil {
			t.Errorf("receive: %s", err)
		} else {
			// a failed accept is returned and is no failure of the session
			rl.c.detach(rl.handle)
			time.Sleep(50 * time.Millisecond)
			oks()
			aerr := r.Accept(short(time.Second), m)
			if e := reports(); len(e) != 0 {
				t.Errorf("accept error %v reported: %v", aerr, e)
			}
			if aerr != nil && len(oks()) != 0 {
				t.Errorf("failed accept reported as success")
			}
			r.mu.Lock()
			if r.curr == nil {
				t.Errorf("failed accept dropped the session")
			}
			r.mu.Unlock()
		}
		oks()
		reports()
		install(first + 2)
		l3 := c.NewSender("s3", SenderOptions{}).(*link)
		if l3.currGen != first+2 {
			t.Errorf("new link starts with generation %d", l3.currGen)
		}
		fail := make(chan struct{})
		s.mu.Lock()
		s.settleErr = func(int) bool { return true }
		s.mu.Unlock()
		close(fail)
		if err := l.Send(short(3*time.Second), msg); err == nil {
			t.Errorf("failed send reports success")
		}
		s.mu.Lock()
		s.settleErr = nil
		s.mu.Unlock()
		if e := reports(); len(e) != 1 || e[0].Generation != first+1 {
			t.Errorf("failure of an older session reported as %v, want one of generation %d", e, first+1)
		}
	}
	_ = backoff.Stop
}

// receive retries across sessions until a message arrives
func TestVerifC25Retry(t *testing.T) {
	s := newVServer(t)
	s.attachErr = func(conn int, sender bool) bool { return conn < 3 }
	s.onCredit = func(l *vLink) {
		if l.next == 0 {
			l.transfer([]byte("m"))
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	c := NewContainer(s.url(), ContainerConfig{BackOff: backoff.NewConstantBackOff(10 * time.Millisecond)})
	c.Start(ctx)
	r := c.NewReceiver("r", ReceiverOptions{})
	var err error
	if !vWithin(10*time.Second, func() { _, err = r.Next(ctx) }) || err != nil {
		t.Errorf("receive did not retry: %v", err)
	}
}
