// pkg: eventsource race
package eventsource

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/c-kruse/vanflow"
)

func vC23Within(t *testing.T, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatalf("%s does not return", what)
	}
}

// Registration, listening and closing from several goroutines and from the handlers.
func TestVerifC23Client(t *testing.T) {
	rnd := rand.New(rand.NewSource(vfSeed()))
	end := time.Now().Add(vfBudget())
	for n := 0; (n < 10 || time.Now().Before(end)) && n < 200 && !t.Failed(); n++ {
		c := newVfContainer()
		client := NewClient(c, ClientOptions{Source: Info{ID: "x", Address: "mc/x", Direct: "x"}})
		var reg sync.Once
		var mu sync.Mutex
		got := 0
		client.OnHeartbeat(func(vanflow.HeartbeatMessage) {
			reg.Do(func() {
				client.OnHeartbeat(func(vanflow.HeartbeatMessage) {})
				client.OnRecord(func(vanflow.RecordMessage) {})
				client.Listen(context.Background(), FromSourceAddressLogs())
			})
			mu.Lock()
			got++
			mu.Unlock()
		})
		ctx, cancel := context.WithCancel(context.Background())
		vC23Within(t, "Listen", func() { client.Listen(ctx, FromSourceAddressHeartbeats()); client.Listen(ctx, FromSourceAddress()) })
		q := c.queue("mc/x.heartbeats")
		sends := 1 + rnd.Intn(20)
		var wg sync.WaitGroup
		for k := 0; k < 3; k++ {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 10; i++ {
					switch k {
					case 0:
						client.OnRecord(func(vanflow.RecordMessage) {})
					case 1:
						client.OnHeartbeat(func(vanflow.HeartbeatMessage) {})
					case 2:
						client.Listen(ctx, FromSourceAddressFlows())
					}
				}
			}()
		}
		for i := 0; i < sends; i++ {
			q <- vfDelivery{msg: vanflow.HeartbeatMessage{Identity: "x", Version: 1}.Encode()}
		}
		if rnd.Intn(2) == 0 {
			vfWait(2*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return got == sends })
		}
		vC23Within(t, "registering handlers and listeners", wg.Wait)
		vC23Within(t, "closing the client while others close it", func() {
			var wg sync.WaitGroup
			for k := 0; k < 3; k++ {
				wg.Add(1)
				go func() { defer wg.Done(); client.Close() }()
			}
			wg.Wait()
			client.Close()
		})
		cancel()
	}
}

// Discovery operations from several goroutines and from the handlers, with slow handlers.
func TestVerifC23Discovery(t *testing.T) {
	rnd := rand.New(rand.NewSource(vfSeed()))
	end := time.Now().Add(vfBudget())
	for n := 0; (n < 5 || time.Now().Before(end)) && n < 100 && !t.Failed(); n++ {
		c := newVfContainer()
		d := NewDiscovery(c, DiscoveryOptions{})
		ctx, cancel := context.WithCancel(context.Background())
		gate := make(chan struct{})
		slow := rnd.Intn(2) == 0
		done := make(chan struct{})
		go func() {
			defer close(done)
			d.Run(ctx, DiscoveryHandlers{
				Discovered: func(i Info) {
					if slow {
						<-gate
					}
					d.Get(i.ID)
					d.List()
				},
				Forgotten: func(i Info) { d.Get(i.ID); d.List() },
			})
		}()
		q := c.queue("mc/sfe.all")
		for i := 0; i < 200; i++ {
			q <- vfDelivery{msg: vanflow.BeaconMessage{Identity: fmt.Sprint("b", rnd.Intn(25)), Version: 1, SourceType: "T", Address: "a", Direct: "d"}.Encode()}
		}
		// announcements may wait for the slow handler; reading may not
		go d.Add(Info{ID: "added"})
		for i := 0; i < 6; i++ {
			go d.Forget(fmt.Sprint("b", i))
		}
		time.Sleep(time.Duration(rnd.Intn(20)) * time.Millisecond)
		vC23Within(t, "List while handlers are slow", func() { d.List() })
		vC23Within(t, "Get while handlers are slow", func() { d.Get("b1") })
		close(gate)
		vfWait(2*time.Second, func() bool { return len(d.List()) >= 20 })
		cancel()
		vC23Within(t, "Run after its context ended", func() { <-done })
	}
}
