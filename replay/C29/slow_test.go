// pkg: session
package session

import (
	"context"
	"fmt"
	"testing"
	"time"

	"github.com/Azure/go-amqp"
)

func TestVerifC29SlowReceiver(t *testing.T) {
	c := NewMockContainer(NewMockRouter())
	r := c.NewReceiver("x", ReceiverOptions{Credit: 2})
	s := c.NewSender("x", SenderOptions{})
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	go func() {
		for i := 0; i < 10; i++ {
			s.Send(ctx, amqp.NewMessage([]byte(fmt.Sprint(i))))
		}
	}()
	time.Sleep(50 * time.Millisecond)
	for i := 0; i < 10; i++ {
		m, err := r.Next(ctx)
		if err != nil {
			t.Fatalf("message %d: %s", i, err)
		}
		if string(m.GetData()) != fmt.Sprint(i) {
			t.Fatalf("message %d: %s", i, m.GetData())
		}
	}
}
