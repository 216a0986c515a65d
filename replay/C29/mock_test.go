// pkg: session
package session

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/Azure/go-amqp"
)

func TestVerifC29Delivery(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rng := rand.New(rand.NewSource(seed))
	ctx := context.Background()
	for round := 0; round < 200 && !t.Failed(); round++ {
		router := NewMockRouter()
		type rcv struct {
			r      Receiver
			addr   string
			closed bool
			want   []string
		}
		var rs []*rcv
		senders := map[string][]Sender{}
		n := 0
		for step := 0; step < 40; step++ {
			addr := []string{"a", "b", ""}[rng.Intn(3)]
			switch k := rng.Intn(10); {
			case k < 2:
				rs = append(rs, &rcv{r: NewMockContainer(router).NewReceiver(addr, ReceiverOptions{Credit: 64 * rng.Intn(2)}), addr: addr})
			case k < 3 && len(rs) > 0:
				x := rs[rng.Intn(len(rs))]
				for i := 0; i < 1+rng.Intn(2); i++ {
					if err := x.r.Close(ctx); err != nil {
						t.Errorf("close: %s", err)
					}
				}
				x.closed = true
			default:
				// the send waits only while nobody ever subscribed
				open := false
				for _, x := range rs {
					open = open || x.addr == addr
				}
				if len(senders[addr]) == 0 || rng.Intn(4) == 0 {
					senders[addr] = append(senders[addr], NewMockContainer(router).NewSender(addr, SenderOptions{}))
				}
				snd := senders[addr][rng.Intn(len(senders[addr]))]
				n++
				id := fmt.Sprint("m", n)
				if !open {
					continue
				}
				if !vWithin(5*time.Second, func() {
					if err := snd.Send(ctx, amqp.NewMessage([]byte(id))); err != nil {
						t.Errorf("send: %s", err)
					}
				}) {
					t.Fatal("send to an address with receivers blocks")
				}
				for _, x := range rs {
					if x.addr == addr && !x.closed {
						x.want = append(x.want, id)
					}
				}
			}
		}
		for i, x := range rs {
			if x.closed {
				c, cancel := context.WithTimeout(ctx, time.Second)
				for k := 0; k < 100; k++ {
					if m, err := x.r.Next(c); err != nil {
						break
					} else if k == 99 {
						t.Errorf("closed receiver keeps delivering %v", m)
					}
				}
				cancel()
				continue
			}
			for j, w := range x.want {
				c, cancel := context.WithTimeout(ctx, time.Second)
				m, err := x.r.Next(c)
				cancel()
				if err != nil {
					t.Errorf("receiver %d: message %d of %d missing: %s", i, j, len(x.want), err)
					break
				}
				if string(m.GetData()) != w {
					t.Errorf("receiver %d: message %d is %s, want %s", i, j, m.GetData(), w)
				}
			}
			c, cancel := context.WithTimeout(ctx, time.Millisecond)
			if m, err := x.r.Next(c); err == nil {
				t.Errorf("receiver %d: extra message %s", i, m.GetData())
			}
			cancel()
		}
		for _, ss := range senders {
			for _, s := range ss {
				s.Close(ctx)
				s.Close(ctx)
				if err := s.Send(ctx, amqp.NewMessage(nil)); err == nil {
					t.Errorf("closed sender sends")
				}
			}
		}
	}
}

func TestVerifC29Waits(t *testing.T) {
	router := NewMockRouter()
	c := NewMockContainer(router)
	s := c.NewSender("x", SenderOptions{})
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Millisecond)
	if err := s.Send(ctx, amqp.NewMessage([]byte("1"))); err == nil {
		t.Errorf("send without receiver succeeds")
	}
	cancel()
	c.NewReceiver("y", ReceiverOptions{})
	res := make(chan error, 1)
	go func() { res <- s.Send(context.Background(), amqp.NewMessage([]byte("2"))) }()
	select {
	case err := <-res:
		t.Errorf("send without receiver returns %v", err)
	case <-time.After(30 * time.Millisecond):
	}
	r := c.NewReceiver("x", ReceiverOptions{})
	select {
	case err := <-res:
		if err != nil {
			t.Errorf("send: %s", err)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("send does not end when a receiver subscribes")
	}
	nctx, cancel := context.WithTimeout(context.Background(), time.Second)
	defer cancel()
	if m, err := r.Next(nctx); err != nil || string(m.GetData()) != "2" {
		t.Errorf("got %v %v", m, err)
	}
	// a closed receiver never blocks a sender, whatever its queue
	full := c.NewReceiver("z", ReceiverOptions{Credit: 1})
	z := c.NewSender("z", SenderOptions{})
	z.Send(context.Background(), amqp.NewMessage([]byte("f")))
	done := make(chan struct{})
	go func() {
		defer close(done)
		z.Send(context.Background(), amqp.NewMessage([]byte("g")))
	}()
	time.Sleep(20 * time.Millisecond)
	full.Close(context.Background())
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Errorf("sender blocked by a closed receiver")
	}
}
