// pkg: eventsource race
package eventsource

import (
	"context"
	"errors"
	"math/rand"
	"sync"
	"testing"
	"time"

	amqp "github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow"
)

func vC22Message(rnd *rand.Rand) *amqp.Message {
	if rnd.Intn(2) == 0 {
		return vanflow.HeartbeatMessage{Identity: "src"}.Encode()
	}
	msg, _ := vanflow.RecordMessage{}.Encode()
	return msg
}

func TestVerifC22FlushOnce(t *testing.T) {
	rnd := rand.New(rand.NewSource(vfSeed()))
	end := time.Now().Add(vfBudget())
	for n := 0; (n < 30 || time.Now().Before(end)) && n < 3000 && !t.Failed(); n++ {
		c := newVfContainer()
		fails := errors.New("cannot send")
		failing := rnd.Intn(3) == 0
		c.send = func(context.Context, string, *amqp.Message) error {
			if failing {
				return fails
			}
			return nil
		}
		client := NewClient(c, ClientOptions{Source: Info{ID: "src", Address: "mc/sfe.src", Direct: "sfe.src"}})
		lctx, stop := context.WithCancel(context.Background())
		client.Listen(lctx, FromSourceAddress())
		client.Listen(lctx, FromSourceAddressFlows())
		client.Listen(lctx, FromSourceAddressHeartbeats())
		queues := []chan vfDelivery{c.queue("mc/sfe.src"), c.queue("mc/sfe.src.flows"), c.queue("mc/sfe.src.heartbeats")}
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan error, 1)
		go func() { done <- FlushOnFirstMessage(ctx, client) }()
		vfWait(time.Second, func() bool {
			client.lock.Lock()
			defer client.lock.Unlock()
			return len(client.recordHandlers) > 0 && len(client.heartbeatHandlers) > 0
		})
		if rnd.Intn(3) == 0 {
			for _, q := range queues {
				q <- vfDelivery{msg: vanflow.BeaconMessage{}.Encode()}
				q <- vfDelivery{msg: &amqp.Message{}}
			}
			time.Sleep(2 * time.Millisecond)
		}
		if s := c.sends(); len(s) != 0 {
			t.Fatal("flush sent before any message")
		}
		ended := rnd.Intn(3) == 0
		if ended {
			cancel()
		} else {
			var wg sync.WaitGroup
			for _, q := range queues {
				msg := vC22Message(rnd)
				wg.Add(1)
				go func(q chan vfDelivery) {
					defer wg.Done()
					q <- vfDelivery{msg: msg}
				}(q)
			}
			wg.Wait()
		}
		var err error
		select {
		case err = <-done:
		case <-time.After(3 * time.Second):
			t.Fatal("FlushOnFirstMessage does not return")
		}
		// more messages do no harm
		want := map[string]int{}
		for _, q := range queues {
			for i := 0; i < 3; i++ {
				q <- vfDelivery{msg: vC22Message(rnd)}
			}
		}
		if !vfWait(3*time.Second, func() bool {
			c.mu.Lock()
			defer c.mu.Unlock()
			k := 0
			for _, v := range c.nexts {
				k += v
			}
			for _, q := range queues {
				if len(q) > 0 {
					return false
				}
			}
			return k >= 12
		}) {
			t.Fatal("a listener is stuck", want)
		}
		s := c.sends()
		switch {
		case ended:
			if len(s) != 0 || !errors.Is(err, context.Canceled) {
				t.Errorf("context ended first: %d flushes, error %v", len(s), err)
			}
		case len(s) != 1 || s[0].addr != "sfe.src":
			t.Errorf("sent %+v, want one flush", s)
		case failing != (err != nil) || failing && !errors.Is(err, fails):
			t.Errorf("failing %v: returned %v", failing, err)
		default:
			if x, e := vanflow.Decode(s[0].msg); e != nil {
				t.Error(e)
			} else if f, ok := x.(vanflow.FlushMessage); !ok || f.To != "sfe.src" {
				t.Errorf("sent %+v", x)
			}
		}
		cancel()
		stop()
	}
}

// Handlers run concurrently when several listeners of the client get their first message at once.
func TestVerifC22Concurrent(t *testing.T) {
	end := time.Now().Add(vfBudget())
	for n := 0; (n < 100 || time.Now().Before(end)) && n < 100000 && !t.Failed(); n++ {
		c := newVfContainer()
		client := NewClient(c, ClientOptions{Source: Info{ID: "src", Address: "mc/sfe.src", Direct: "sfe.src"}})
		done := make(chan error, 1)
		go func() { done <- FlushOnFirstMessage(context.Background(), client) }()
		var records []RecordMessageHandler
		var beats []HeartbeatMessageHandler
		vfWait(time.Second, func() bool {
			records, beats = client.getHandlers()
			return len(records) > 0 && len(beats) > 0
		})
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(2)
			go func() {
				defer wg.Done()
				<-start
				records[0](vanflow.RecordMessage{})
			}()
			go func() {
				defer wg.Done()
				<-start
				beats[0](vanflow.HeartbeatMessage{})
			}()
		}
		close(start)
		wg.Wait()
		if err := <-done; err != nil || len(c.sends()) != 1 {
			t.Errorf("error %v, %d flushes", err, len(c.sends()))
		}
	}
}
