// pkg: eventsource
package eventsource

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	amqp "github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow"
)

type vC21Config struct{ cfg ListenerConfig }

func (c vC21Config) Get(Info) ListenerConfig { return c.cfg }

func TestVerifC21Delivery(t *testing.T) {
	rnd := rand.New(rand.NewSource(vfSeed()))
	end := time.Now().Add(vfBudget())
	for n := 0; (n < 10 || time.Now().Before(end)) && n < 600 && !t.Failed(); n++ {
		c := newVfContainer()
		refused := map[*amqp.Message]bool{}
		c.acceptErr = func(m *amqp.Message) error {
			if refused[m] {
				return errors.New("refused")
			}
			return nil
		}
		client := NewClient(c, ClientOptions{Source: Info{ID: "src", Address: "mc/sfe.src", Direct: "sfe.src"}})
		var mu sync.Mutex
		var got, want []string
		log := func(s string) {
			mu.Lock()
			got = append(got, s)
			mu.Unlock()
		}
		records, beats := 0, 0
		register := func() {
			if rnd.Intn(2) == 0 {
				id := records
				records++
				client.OnRecord(func(m vanflow.RecordMessage) { log(fmt.Sprintf("r%d:%s", id, m.To)) })
			} else {
				id := beats
				beats++
				client.OnHeartbeat(func(m vanflow.HeartbeatMessage) { log(fmt.Sprintf("h%d:%s", id, m.Identity)) })
			}
		}
		for i, k := 0, rnd.Intn(5); i < k; i++ {
			register()
		}
		if n%7 == 0 {
			// a handler may use the client it belongs to
			client.OnRecord(func(m vanflow.RecordMessage) {
				client.OnHeartbeat(func(vanflow.HeartbeatMessage) {})
				log(fmt.Sprintf("r%d:%s", 1000, m.To))
			})
		}
		cfg := ListenerConfig{Address: fmt.Sprint("listen", rnd.Intn(3)), Credit: rnd.Intn(500)}
		ctx, cancel := context.WithCancel(context.Background())
		if err := client.Listen(ctx, vC21Config{cfg}); err != nil {
			t.Fatal(err)
		}
		q := c.queue(cfg.Address)
		sent := 0
		idle := func() bool {
			return vfWait(3*time.Second, func() bool {
				c.mu.Lock()
				defer c.mu.Unlock()
				return c.nexts[cfg.Address] > sent
			})
		}
		for i, k := 0, rnd.Intn(30); i < k; i++ {
			id := fmt.Sprint("m", i)
			var d vfDelivery
			kind := rnd.Intn(9)
			switch kind {
			case 0, 1, 2:
				rm := vanflow.RecordMessage{Records: []vanflow.Record{vanflow.SiteRecord{BaseRecord: vanflow.NewBase(id)}}}
				rm.To = id
				d.msg, _ = rm.Encode()
			case 3, 4:
				d.msg = vanflow.HeartbeatMessage{Identity: id}.Encode()
			case 5:
				d.msg = vanflow.BeaconMessage{Identity: id}.Encode()
			case 6:
				d.msg = vanflow.FlushMessage{}.Encode()
			case 7:
				d.msg = &amqp.Message{}
			case 8:
				d.err = []error{errors.New("receive error"), fmt.Errorf("session lost: %w", context.Canceled), fmt.Errorf("session lost: %w", context.DeadlineExceeded)}[rnd.Intn(3)]
			}
			ok := true
			if d.msg != nil && rnd.Intn(6) == 0 {
				c.mu.Lock()
				refused[d.msg] = true
				c.mu.Unlock()
				ok = false
			}
			if ok && kind < 3 {
				for h := 0; h < records; h++ {
					want = append(want, fmt.Sprintf("r%d:%s", h, id))
				}
				if n%7 == 0 {
					want = append(want, fmt.Sprintf("r%d:%s", 1000, id))
				}
			} else if ok && (kind == 3 || kind == 4) {
				for h := 0; h < beats; h++ {
					want = append(want, fmt.Sprintf("h%d:%s", h, id))
				}
			}
			q <- d
			sent++
			if n%7 != 0 && rnd.Intn(5) == 0 {
				if !idle() {
					t.Fatalf("the listener stopped after %v", want)
				}
				register()
			}
		}
		if !idle() {
			t.Fatal("the listener stopped")
		}
		mu.Lock()
		if fmt.Sprint(got) != fmt.Sprint(want) {
			t.Errorf("handlers called: %v\nwant: %v", got, want)
		}
		mu.Unlock()
		c.mu.Lock()
		if c.receivers[cfg.Address] != 1 || c.credits[cfg.Address][0] != cfg.Credit {
			t.Errorf("configured %+v: receivers %v credits %v", cfg, c.receivers, c.credits)
		}
		c.mu.Unlock()
		cancel()
		if !vfWait(3*time.Second, func() bool {
			c.mu.Lock()
			defer c.mu.Unlock()
			return c.closed[cfg.Address] == 1
		}) {
			t.Error("the listener does not stop with its context")
		}
	}
}
