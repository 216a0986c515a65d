// pkg: eventsource
package eventsource

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	amqp "github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow"
)

func vC18Check(t *testing.T, cfg ManagerConfig, s vfSent) string {
	if s.msg.Properties == nil || s.msg.Properties.Subject == nil {
		t.Fatalf("message without subject sent to %s", s.addr)
	}
	beacon, beat := cfg.BeaconInterval, cfg.HeartbeatInterval
	if beacon <= 0 {
		beacon = 10 * time.Second
	}
	if beat <= 0 {
		beat = 2 * time.Second
	}
	x, err := vanflow.Decode(s.msg)
	if err != nil {
		t.Fatal(err)
	}
	src := cfg.Source
	switch m := x.(type) {
	case vanflow.BeaconMessage:
		if s.addr != "mc/sfe.all" || m.To != "mc/sfe.all" || m.Identity != src.ID || m.Version != uint32(src.Version) || m.SourceType != src.Type || m.Address != src.Address || m.Direct != src.Direct {
			t.Fatalf("beacon %+v to %s for %+v", m, s.addr, src)
		}
		if !s.limited || s.deadline.After(s.at.Add(beacon)) {
			t.Fatalf("beacon sent with deadline %v (%v) after %v", s.deadline.Sub(s.at), s.limited, beacon)
		}
		return "beacon"
	case vanflow.HeartbeatMessage:
		addr := src.Address
		if cfg.UseAlternateHeartbeatAddress {
			addr += ".heartbeats"
		}
		if s.addr != addr || m.Identity != src.ID || m.Version != uint32(src.Version) || m.To != "mc/sfe."+src.ID {
			t.Fatalf("heartbeat %+v to %s for %+v", m, s.addr, src)
		}
		if d := s.at.Sub(time.UnixMicro(int64(m.Now))); d < -time.Second || d > time.Second {
			t.Fatalf("heartbeat says it is %s", time.UnixMicro(int64(m.Now)))
		}
		if !s.limited || s.deadline.After(s.at.Add(beat)) {
			t.Fatalf("heartbeat sent with deadline %v (%v) after %v", s.deadline.Sub(s.at), s.limited, beat)
		}
		return "heartbeat"
	}
	t.Fatalf("sent a %T", x)
	return ""
}

func TestVerifC18Keepalives(t *testing.T) {
	ms := time.Millisecond
	var wg sync.WaitGroup
	run := func(cfg ManagerConfig, mode string, d time.Duration) {
		wg.Add(1)
		t.Run(fmt.Sprintf("%s-%v-%v-%v", mode, cfg.BeaconInterval, cfg.HeartbeatInterval, cfg.UseAlternateHeartbeatAddress), func(t *testing.T) {
			t.Parallel()
			defer wg.Done()
			c := newVfContainer()
			var mu sync.Mutex
			n := 0
			c.send = func(ctx context.Context, addr string, msg *amqp.Message) error {
				mu.Lock()
				n++
				k := n
				mu.Unlock()
				switch {
				case mode == "block" && k%2 == 0, mode == "stuck":
					if _, ok := ctx.Deadline(); !ok {
						return errors.New("would block for ever")
					}
					<-ctx.Done()
					return ctx.Err()
				case mode == "fail" && k%2 == 1:
					return errors.New("failing sender")
				}
				return ctx.Err()
			}
			m := NewManager(c, cfg)
			ctx, cancel := context.WithCancel(context.Background())
			done := make(chan struct{})
			go func() { m.sendKeepalives(ctx); close(done) }()
			time.Sleep(d)
			cancel()
			select {
			case <-done:
			case <-time.After(3 * time.Second):
				t.Error("keepalives do not stop")
			}
			kinds := map[string]int{}
			stopped := 0
			for i, s := range c.sends() {
				k := vC18Check(t, cfg, s)
				kinds[k]++
				if i == 0 && k != "beacon" {
					t.Errorf("started with a %s", k)
				}
				if s.stopped {
					stopped++
				}
			}
			if stopped > 12 {
				t.Errorf("%d sends attempted after the manager was stopped", stopped)
			}
			beacon, beat := cfg.BeaconInterval, cfg.HeartbeatInterval
			if kinds["beacon"] == 0 || mode != "stuck" && (beat > 0 && d > 8*beat && kinds["heartbeat"] < 2 || beacon > 0 && d > 8*beacon && kinds["beacon"] < 3 || beat <= 0 && d > 2500*ms && kinds["heartbeat"] == 0) {
				t.Errorf("sent %v in %v", kinds, d)
			}
		})
	}
	src := Info{ID: "src", Version: 7, Type: "ROUTER", Address: "mc/sfe.src", Direct: "sfe.src"}
	for _, alt := range []bool{false, true} {
		for _, mode := range []string{"ok", "fail", "block", "stuck"} {
			run(ManagerConfig{Source: src, BeaconInterval: 10 * ms, HeartbeatInterval: 30 * ms, UseAlternateHeartbeatAddress: alt}, mode, 400*ms)
			run(ManagerConfig{Source: src, BeaconInterval: 50 * ms, HeartbeatInterval: 10 * ms, UseAlternateHeartbeatAddress: alt}, mode, 500*ms)
		}
	}
	run(ManagerConfig{Source: src}, "ok", 2700*ms)
	run(ManagerConfig{Source: src, BeaconInterval: 30 * ms}, "ok", 2700*ms)
	run(ManagerConfig{Source: src, HeartbeatInterval: 30 * ms}, "ok", 400*ms)
}

func TestVerifC18Timeout(t *testing.T) {
	for _, wrap := range []bool{false, true} {
		c := newVfContainer()
		c.send = func(ctx context.Context, addr string, msg *amqp.Message) error {
			if _, ok := ctx.Deadline(); !ok {
				t.Error("send without deadline")
				return nil
			}
			<-ctx.Done()
			if wrap {
				return fmt.Errorf("wrapped: %w", ctx.Err())
			}
			return ctx.Err()
		}
		s := &vfSender{c, "a"}
		if err := sendWithTimeout(context.Background(), 5*time.Millisecond, s, &amqp.Message{}); !errors.Is(err, errSendTimeoutExceeded) {
			t.Errorf("expired deadline reported as %v", err)
		}
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Millisecond)
		if err := sendWithTimeout(ctx, time.Hour, s, &amqp.Message{}); err == nil || errors.Is(err, errSendTimeoutExceeded) {
			t.Errorf("stopping reported as %v", err)
		}
		cancel()
	}
	c := newVfContainer()
	want := errors.New("other")
	c.send = func(ctx context.Context, addr string, msg *amqp.Message) error { return want }
	if err := sendWithTimeout(context.Background(), time.Hour, &vfSender{c, "a"}, &amqp.Message{}); !errors.Is(err, want) {
		t.Errorf("failing send reported as %v", err)
	}
}
