// pkg: session race
package session

import (
	"context"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/Azure/go-amqp"
)

func vC23Budget() time.Duration {
	n, err := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if err != nil {
		n = 5
	}
	return time.Duration(n) * time.Second
}

func vC23Seed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}

// Senders, receivers and closes of one mock router at once.
func TestVerifC23Mock(t *testing.T) {
	rnd := rand.New(rand.NewSource(vC23Seed()))
	end := time.Now().Add(vC23Budget() / 2)
	for n := 0; (n < 5 || time.Now().Before(end)) && n < 200 && !t.Failed(); n++ {
		router := NewMockRouter()
		ctx, cancel := context.WithCancel(context.Background())
		var wg sync.WaitGroup
		for k := 0; k < 6; k++ {
			k, addr := k, []string{"a", "b"}[rnd.Intn(2)]
			wg.Add(1)
			go func() {
				defer wg.Done()
				c := NewMockContainer(router)
				if k < 3 {
					for i := 0; i < 5; i++ {
						r := c.NewReceiver(addr, ReceiverOptions{Credit: 8})
						nctx, stop := context.WithTimeout(ctx, time.Millisecond)
						for {
							if _, err := r.Next(nctx); err != nil {
								break
							}
						}
						stop()
						go r.Close(ctx)
						r.Close(ctx)
					}
					return
				}
				for i := 0; i < 30; i++ {
					sctx, stop := context.WithTimeout(ctx, time.Millisecond)
					c.NewSender(addr, SenderOptions{}).Send(sctx, amqp.NewMessage([]byte("x")))
					stop()
				}
			}()
		}
		if !vWithin(20*time.Second, wg.Wait) {
			t.Fatal("mock router operations do not return")
		}
		cancel()
	}
}

// Error handlers that register handlers and make links, while links are used, closed and
// registered from other goroutines and connections are lost.
func TestVerifC23Container(t *testing.T) {
	s := newVServer(t)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	c := NewContainer(s.url(), ContainerConfig{})
	var mu sync.Mutex
	got := 0
	c.OnSessionError(func(error) {
		c.OnSessionError(func(error) {})
		c.NewSender("z", SenderOptions{}).Close(ctx)
		mu.Lock()
		got++
		mu.Unlock()
	})
	c.Start(ctx)
	stopped := make(chan struct{})
	go func() {
		for {
			select {
			case <-stopped:
				return
			default:
				c.NewReceiver("r", ReceiverOptions{})
				time.Sleep(10 * time.Microsecond)
			}
		}
	}()
	defer close(stopped)
	var wg sync.WaitGroup
	for k := 0; k < 6; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 4; i++ {
				lctx, stop := context.WithTimeout(ctx, 200*time.Millisecond)
				if k%2 == 0 {
					l := c.NewReceiver("q", ReceiverOptions{Credit: 4})
					go l.Close(ctx)
					l.Next(lctx)
					l.Close(ctx)
				} else {
					l := c.NewSender("q", SenderOptions{})
					l.Send(lctx, amqp.NewMessage([]byte("x")))
					go l.Close(ctx)
					l.Send(lctx, amqp.NewMessage([]byte("x")))
				}
				stop()
				if k == 0 && i < 2 {
					s.kill()
				}
				c.OnSessionError(func(error) {})
			}
		}()
	}
	if !vWithin(30*time.Second, wg.Wait) {
		t.Fatal("container and link operations do not return")
	}
	s.kill()
	if !vWait(10*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return got > 0 }) {
		t.Skip("no session error was reported")
	}
	if !vWithin(5*time.Second, func() { c.OnSessionError(func(error) {}); c.NewReceiver("q", ReceiverOptions{}) }) {
		t.Fatal("the container is stuck after its error handlers ran")
	}
}
