// pkg: session
package session

import (
	"context"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/Azure/go-amqp"
)

func TestVerifC29ConcurrentSubscribe(t *testing.T) {
	router := NewMockRouter()
	ctx := context.Background()
	start := time.Now()
	for i := 0; time.Since(start) < 2*time.Second && i < 200000; i++ {
		addr := fmt.Sprint("a", i)
		rs := make([]Receiver, 4)
		begin := make(chan struct{})
		var wg sync.WaitGroup
		for k := range rs {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-begin
				rs[k] = NewMockContainer(router).NewReceiver(addr, ReceiverOptions{Credit: 1})
			}()
		}
		close(begin)
		wg.Wait()
		if err := NewMockContainer(router).NewSender(addr, SenderOptions{}).Send(ctx, amqp.NewMessage([]byte("x"))); err != nil {
			t.Fatal(err)
		}
		for k, r := range rs {
			c, cancel := context.WithTimeout(ctx, time.Second)
			_, err := r.Next(c)
			cancel()
			if err != nil {
				t.Fatalf("round %d: receiver %d got nothing: %s", i, k, err)
			}
		}
	}
}
