// pkg: eventsource
package eventsource

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"testing"
	"time"

	amqp "github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow"
)

func vC16Records(t *testing.T, msg *amqp.Message) []vanflow.Record {
	x, err := vanflow.Decode(msg)
	if err != nil {
		t.Fatalf("sent message does not decode: %s", err)
	}
	rm, ok := x.(vanflow.RecordMessage)
	if !ok {
		t.Fatalf("sent a %T to the source address", x)
	}
	return rm.Records
}

func TestVerifC16Updates(t *testing.T) {
	rnd := rand.New(rand.NewSource(vfSeed()))
	end := time.Now().Add(vfBudget())
	for n := 0; (n < 6 || time.Now().Before(end)) && n < 400 && !t.Failed(); n++ {
		c := newVfContainer()
		fails := rnd.Intn(3) == 0
		c.send = func(ctx context.Context, addr string, msg *amqp.Message) error {
			if fails && addr == "mc/sfe.src" && len(c.sends())%3 == 1 {
				return errors.New("failing sender")
			}
			return ctx.Err()
		}
		cfg := ManagerConfig{Source: Info{ID: "src", Address: "mc/sfe.src", Direct: "sfe.src"}, BeaconInterval: time.Hour, HeartbeatInterval: time.Hour}
		limit := 1
		switch rnd.Intn(5) {
		case 0:
			cfg.UpdateBatchSize = 7
		case 1:
			cfg.UpdateBufferTime = time.Millisecond
			cfg.UpdateBatchSize = rnd.Intn(2)
		case 2, 3, 4:
			cfg.UpdateBufferTime = time.Duration(1+rnd.Intn(8)) * time.Millisecond
			cfg.UpdateBatchSize = 2 + rnd.Intn(6)
			limit = cfg.UpdateBatchSize
		}
		m := NewManager(c, cfg)
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan struct{})
		go func() { m.Run(ctx); close(done) }()
		var want []string
		flushes := c.queue("sfe.src")
		for i, k := 0, 1+rnd.Intn(40); i < k; i++ {
			id := fmt.Sprint("u", i)
			name, other := "new", "old"
			curr := vanflow.SiteRecord{BaseRecord: vanflow.NewBase(id), Name: &name}
			u := RecordUpdate{Curr: curr}
			switch rnd.Intn(5) {
			case 0: // unchanged
				u.Prev = curr
			case 1:
				u.Prev = vanflow.SiteRecord{BaseRecord: vanflow.NewBase(id), Name: &other}
				want = append(want, id)
			case 2:
				if limit == 1 && rnd.Intn(2) == 0 { // does not encode
					u.Curr = vfBad{vanflow.NewBase(id)}
				} else {
					want = append(want, id)
				}
			default:
				want = append(want, id)
			}
			m.PublishUpdate(u)
			if rnd.Intn(10) == 0 {
				time.Sleep(time.Duration(rnd.Intn(12)) * time.Millisecond)
			}
			if rnd.Intn(10) == 0 {
				flushes <- vfDelivery{msg: vanflow.FlushMessage{}.Encode()}
			}
		}
		records := func() (ids []string) {
			for _, s := range c.sends() {
				if s.addr != "mc/sfe.src" {
					continue
				}
				rs := vC16Records(t, s.msg)
				if len(rs) == 0 || len(rs) > limit {
					t.Fatalf("a message of %d records, batch size %d", len(rs), limit)
				}
				for _, r := range rs {
					ids = append(ids, r.Identity())
				}
			}
			return ids
		}
		vfWait(2*time.Second, func() bool { return len(records()) >= len(want) })
		time.Sleep(3 * time.Millisecond)
		if got := records(); fmt.Sprint(got) != fmt.Sprint(want) {
			t.Errorf("config %+v: sent %v, want %v", cfg, got, want)
		}
		cancel()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			t.Fatalf("manager does not stop")
		}
	}
}
