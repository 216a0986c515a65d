// pkg: session
package session

import (
	"context"
	"testing"
	"time"

	"github.com/Azure/go-amqp"
	"github.com/cenkalti/backoff/v4"
)

func TestVerifC26Options(t *testing.T) {
	for _, tc := range []struct {
		credit int
		want   int64
		id     string
		frame  uint32
		sasl   SASLType
	}{
		{0, 1, "", 0, ""},
		{1, 1, "a", 4096, ""},
		{7, 7, "b", 8192, SASLTypeExternal},
		{256, 256, "c", 65536, ""},
		{1000, 1000, "d", 0, SASLTypeExternal},
		{-1, 1, "e", 1024, ""},
		{-5, 1, "f", 2048, ""},
	} {
		s := newVServer(t)
		ctx, cancel := context.WithCancel(context.Background())
		f := NewContainerFactory(s.url(), ContainerConfig{ContainerID: tc.id, MaxFrameSize: tc.frame, SASLType: tc.sasl, BackOff: backoff.NewConstantBackOff(10 * time.Millisecond)})
		c := f.Create()
		c.Start(ctx)
		r := c.NewReceiver("addr-r", ReceiverOptions{Credit: tc.credit})
		snd := c.NewSender("addr-s", SenderOptions{})
		sctx, scancel := context.WithTimeout(ctx, 5*time.Second)
		if err := snd.Send(sctx, amqp.NewMessage([]byte("x"))); err != nil {
			t.Errorf("send: %s", err)
		}
		scancel()
		go r.Next(ctx)
		var rl *vLink
		vWait(5*time.Second, func() bool {
			for _, l := range s.attached() {
				if !l.sender {
					rl = l
				}
			}
			s.mu.Lock()
			defer s.mu.Unlock()
			return rl != nil && rl.credit >= 0
		})
		s.kill()
		vWait(5*time.Second, func() bool { s.mu.Lock(); defer s.mu.Unlock(); return len(s.opens) > 1 })
		s.mu.Lock()
		if len(s.opens) < 2 {
			t.Logf("%+v: no second connection", tc)
		}
		if rl == nil {
			t.Errorf("%+v: no receiver attached", tc)
		} else {
			if rl.credit != tc.want {
				t.Errorf("%+v: credit %d", tc, rl.credit)
			}
			if rl.address != "addr-r" {
				t.Errorf("%+v: receiver address %s", tc, rl.address)
			}
		}
		for _, o := range s.opens {
			if tc.id != "" && o.containerID != tc.id {
				t.Errorf("%+v: container id %q", tc, o.containerID)
			}
			if tc.frame != 0 && o.maxFrame != tc.frame {
				t.Errorf("%+v: frame size %d", tc, o.maxFrame)
			}
			if o.sasl != string(tc.sasl) {
				t.Errorf("%+v: sasl %q", tc, o.sasl)
			}
		}
		// a second connection has the same options
		for _, l := range s.attaches {
			if l.sender && l.address != "addr-s" {
				t.Errorf("sender address %s", l.address)
			}
		}
		s.mu.Unlock()
		cancel()
	}
	o := ContainerConfig{SASLType: "OTHER"}.toAmqp()
	if o.SASLType != nil {
		t.Errorf("SASL without being configured")
	}
}
