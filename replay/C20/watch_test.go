// pkg: eventsource race
package eventsource

import (
	"context"
	"fmt"
	"math/rand"
	"testing"
	"time"

	amqp "github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow"
)

func vC20Junk(rnd *rand.Rand) *amqp.Message {
	str := func(s string) *string { return &s }
	subject := []string{"BEACON", "HEARTBEAT", "RECORD", "FLUSH", "", "beacon"}[rnd.Intn(6)]
	var app map[string]any
	switch rnd.Intn(4) {
	case 0:
		app = map[string]any{}
	case 1:
		app = map[string]any{"id": rnd.Intn(3), "v": "1", "sourceType": nil, "address": 3.5, "direct": []any{}}
	case 2:
		app = map[string]any{"id": nil, "v": nil}
	}
	var value any
	switch rnd.Intn(4) {
	case 0:
		value = "x"
	case 1:
		value = []any{nil, map[any]any{1: 2}}
	}
	switch rnd.Intn(4) {
	case 0:
		return &amqp.Message{ApplicationProperties: app, Value: value}
	case 1:
		return &amqp.Message{Properties: &amqp.MessageProperties{}, ApplicationProperties: app, Value: value}
	case 2:
		return &amqp.Message{Properties: &amqp.MessageProperties{Subject: str(subject)}, ApplicationProperties: app}
	}
	return &amqp.Message{Properties: &amqp.MessageProperties{Subject: str(subject), To: str("mc/sfe.all")}, Value: value}
}

// Whatever arrives on the beacon address, discovery goes on.
func TestVerifC20AnyMessage(t *testing.T) {
	rnd := rand.New(rand.NewSource(vfSeed()))
	end := time.Now().Add(vfBudget())
	for n := 0; (n < 100 || time.Now().Before(end)) && n < 5000 && !t.Failed(); n++ {
		c := newVfContainer()
		if rnd.Intn(2) == 0 {
			c.acceptErr = func(*amqp.Message) error { return fmt.Errorf("no") }
		}
		d := NewDiscovery(c, DiscoveryOptions{})
		q := c.queue("mc/sfe.all")
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan any, 1)
		go func() {
			defer func() {
				if r := recover(); r != nil {
					done <- fmt.Sprint("panic: ", r)
				}
			}()
			done <- d.Run(ctx, DiscoveryHandlers{})
		}()
		want := map[string]bool{}
		for i := 0; i < 40; i++ {
			msg := vC20Junk(rnd)
			if rnd.Intn(3) == 0 {
				id := fmt.Sprint("b", rnd.Intn(9))
				msg = vanflow.BeaconMessage{Identity: id, Version: 1}.Encode()
				want[id] = true
			} else if msg.Properties != nil && msg.Properties.Subject != nil && *msg.Properties.Subject == "BEACON" {
				want[""] = true
			}
			q <- vfDelivery{msg: msg}
		}
		ok := vfWait(3*time.Second, func() bool {
			c.mu.Lock()
			defer c.mu.Unlock()
			return c.nexts["mc/sfe.all"] > 40 || len(done) > 0
		})
		select {
		case x := <-done:
			t.Fatalf("discovery stopped: %v", x)
		default:
		}
		if !ok {
			t.Fatal("discovery does not take all messages")
		}
		list := d.List()
		for _, x := range list {
			if !want[x.ID] {
				t.Errorf("recorded %+v without a beacon", x)
			}
		}
		if len(list) != len(want) {
			t.Errorf("recorded %v, want %v", list, want)
		}
		cancel()
		select {
		case <-done:
		case <-time.After(3 * time.Second):
			t.Fatal("discovery does not stop")
		}
	}
}

const vC20Tick = 40 * time.Millisecond

func vC20Activity(client *Client, rnd *rand.Rand) {
	records, beats := client.getHandlers()
	if rnd.Intn(2) == 0 {
		for _, h := range records {
			h(vanflow.RecordMessage{})
		}
		return
	}
	for _, h := range beats {
		h(vanflow.HeartbeatMessage{})
	}
}

// A watched source is forgotten only when it was silent for its timeout.
func vC20Watch(rnd *rand.Rand, active bool) error {
	c := newVfContainer()
	d := NewDiscovery(c, DiscoveryOptions{})
	id := "src"
	d.Add(Info{ID: id})
	d.Add(Info{ID: "other"})
	client := NewClient(c, ClientOptions{Source: Info{ID: id}})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	cfg := WatchConfig{Client: client, ID: id, Timeout: 4 * vC20Tick, GracePeriod: time.Duration(rnd.Intn(3)) * vC20Tick,
		DiscoveryUpdateInterval: []time.Duration{vC20Tick / 4, vC20Tick, 20 * vC20Tick}[rnd.Intn(3)]}
	if rnd.Intn(5) == 0 {
		cfg.Timeout = 0
	}
	start := time.Now()
	if err := d.NewWatchClient(ctx, cfg); err != nil {
		return err
	}
	last := start
	deadline := cfg.GracePeriod + cfg.Timeout
	reports := 0
	if active {
		for i := 0; i < 4+rnd.Intn(4); i++ {
			gap := time.Duration(1+rnd.Intn(2)) * vC20Tick
			time.Sleep(gap)
			before := time.Now()
			if before.Sub(last) > cfg.Timeout*3/4 && cfg.Timeout > 0 && (reports > 0 || before.Sub(start) > deadline*3/4) {
				return nil // too slow a machine to tell
			}
			if _, ok := d.Get(id); !ok && cfg.Timeout > 0 && time.Since(last) > cfg.Timeout*9/10 {
				return nil
			} else if !ok {
				return fmt.Errorf("forgotten %v after activity (timeout %v, grace %v, interval %v)", time.Since(last), cfg.Timeout, cfg.GracePeriod, cfg.DiscoveryUpdateInterval)
			}
			vC20Activity(client, rnd)
			last = before
			reports++
			if cfg.DiscoveryUpdateInterval < vC20Tick {
				if !vfWait(time.Second, func() bool { x, ok := d.Get(id); return !ok || !x.LastSeen.Before(before) }) {
					return fmt.Errorf("activity is not reported")
				}
			}
		}
	}
	if cfg.Timeout == 0 {
		time.Sleep(3 * vC20Tick)
		if _, ok := d.Get(id); !ok {
			return fmt.Errorf("forgotten without a timeout")
		}
		cancel()
		if _, ok := d.Get("other"); !ok {
			return fmt.Errorf("another source was forgotten")
		}
		return nil
	}
	// silent from now on
	if !vfWait(deadline+3*time.Second, func() bool { _, ok := d.Get(id); return !ok }) {
		return fmt.Errorf("never forgotten")
	}
	if reports > 0 && time.Since(last) < cfg.Timeout/2 {
		return fmt.Errorf("forgotten %v after activity (timeout %v)", time.Since(last), cfg.Timeout)
	}
	if reports == 0 && time.Since(start) < deadline*9/10 {
		return fmt.Errorf("forgotten %v after the start (grace+timeout %v)", time.Since(start), deadline)
	}
	if _, ok := d.Get("other"); !ok {
		return fmt.Errorf("another source was forgotten")
	}
	return nil
}

func TestVerifC20Watch(t *testing.T) {
	seed := vfSeed()
	for round := int64(0); round < 1+int64(vfBudget()/(20*time.Second)); round++ {
		errs := make(chan error, 64)
		for i := 0; i < 32; i++ {
			i := int64(i)
			go func() {
				rnd := rand.New(rand.NewSource(seed*1000 + round*100 + i))
				errs <- vC20Watch(rnd, i%4 != 0)
			}()
		}
		bad := 0
		for i := 0; i < 32; i++ {
			if err := <-errs; err != nil {
				bad++
				t.Log(err)
			}
		}
		if bad > 0 {
			t.Errorf("%d of 32 watches", bad)
		}
	}
}

func TestVerifC20Unknown(t *testing.T) {
	c := newVfContainer()
	d := NewDiscovery(c, DiscoveryOptions{})
	client := NewClient(c, ClientOptions{})
	if err := d.NewWatchClient(context.Background(), WatchConfig{Client: client, ID: "nobody"}); err == nil {
		t.Error("watching an unknown source succeeds")
	}
}
