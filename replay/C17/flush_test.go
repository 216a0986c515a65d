// pkg: eventsource
package eventsource

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/store"
)

// vFlushStore pages through fixed entries and knows its own tokens.
type vFlushStore struct {
	store.Interface
	name  string
	n     int
	rnd   *rand.Rand
	fails bool
	mu    *sync.Mutex
	bad   *string
}

func (s *vFlushStore) List(ctx context.Context, sel *store.Selector) (store.Set, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	var set store.Set
	at, limit := 0, s.n
	if sel != nil {
		if sel.Continue != "" {
			var gen int
			if !strings.HasPrefix(sel.Continue, s.name+"@") {
				*s.bad = fmt.Sprintf("store %s was asked to continue from %q", s.name, sel.Continue)
				return set, nil
			}
			fmt.Sscanf(sel.Continue, s.name+"@%d", &gen)
			at = gen
		}
		if sel.Limit > 0 {
			limit = sel.Limit
		}
	}
	if s.fails && s.rnd.Intn(4) == 0 {
		return set, errors.New("failing store")
	}
	for ; at < s.n && len(set.Entries) < limit; at++ {
		set.Entries = append(set.Entries, store.Entry{Record: vanflow.SiteRecord{BaseRecord: vanflow.NewBase(fmt.Sprintf("%s-%d", s.name, at))}})
	}
	if at < s.n || at == s.n && s.n > 0 && len(set.Entries) > 0 && s.n%2 == 0 && limit < s.n {
		// sometimes the last token leads to an empty page
		set.Continue = fmt.Sprintf("%s@%d", s.name, at)
	}
	return set, nil
}

func TestVerifC17Flush(t *testing.T) {
	rnd := rand.New(rand.NewSource(vfSeed()))
	end := time.Now().Add(vfBudget())
	for n := 0; (n < 6 || time.Now().Before(end)) && n < 400 && !t.Failed(); n++ {
		c := newVfContainer()
		cfg := ManagerConfig{Source: Info{ID: "src", Address: "mc/sfe.src", Direct: "sfe.src"}, BeaconInterval: time.Hour, HeartbeatInterval: time.Hour, FlushBatchSize: rnd.Intn(5)}
		if rnd.Intn(2) == 0 {
			cfg.FlushDelay = time.Duration(1+rnd.Intn(5)) * time.Millisecond
		}
		var mu sync.Mutex
		var bad string
		var want []string
		fails := rnd.Intn(3) == 0
		for i, k := 0, rnd.Intn(4); i < k; i++ {
			s := &vFlushStore{name: fmt.Sprint("s", i), n: rnd.Intn(12), rnd: rnd, fails: fails, mu: &mu, bad: &bad}
			cfg.Stores = append(cfg.Stores, s)
			for j := 0; j < s.n; j++ {
				want = append(want, fmt.Sprintf("%s-%d", s.name, j))
			}
		}
		m := NewManager(c, cfg)
		if cap(m.flushQueue) < 1 {
			t.Fatalf("a flush request with an empty queue can be dropped")
		}
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan struct{})
		go func() { m.Run(ctx); close(done) }()
		records := func() (ids []string) {
			for _, s := range c.sends() {
				if s.addr != "mc/sfe.src" {
					continue
				}
				x, err := vanflow.Decode(s.msg)
				rm, ok := x.(vanflow.RecordMessage)
				if err != nil || !ok || len(rm.Records) == 0 {
					t.Fatalf("sent %v, %v", x, err)
				}
				if cfg.FlushBatchSize > 0 && len(rm.Records) > cfg.FlushBatchSize {
					t.Fatalf("a message of %d records, page size %d", len(rm.Records), cfg.FlushBatchSize)
				}
				for _, r := range rm.Records {
					ids = append(ids, r.Identity())
				}
			}
			return ids
		}
		q := c.queue("sfe.src")
		served := 0
		for i := 0; i < 3 && !t.Failed(); i++ {
			if rnd.Intn(2) == 0 { // a failed receive is not a flush
				q <- vfDelivery{err: errors.New("receive error")}
				time.Sleep(cfg.FlushDelay + 4*time.Millisecond)
				if got := records(); len(got) != served*len(want) {
					t.Fatalf("a failed receive caused a flush: %v", got)
				}
			}
			k := 1
			if cfg.FlushDelay > 0 {
				k += rnd.Intn(4)
			}
			mu.Lock()
			for j := 0; j < k; j++ {
				q <- vfDelivery{msg: vanflow.FlushMessage{}.Encode()}
			}
			mu.Unlock()
			most := served + k
			ok := vfWait(2*time.Second, func() bool { return len(records()) >= (served+1)*len(want) })
			time.Sleep(cfg.FlushDelay*2 + 6*time.Millisecond)
			got := records()
			mu.Lock()
			b := bad
			mu.Unlock()
			if b != "" {
				t.Fatal(b)
			}
			if !ok || len(want) > 0 && (len(got)%len(want) != 0 || len(got)/len(want) > most) {
				t.Fatalf("config %+v: %d records sent for %d..%d flushes of %d", cfg, len(got), served+1, most, len(want))
			}
			for j, id := range got {
				if id != want[j%len(want)] {
					t.Fatalf("config %+v: flush sent %v, want repetitions of %v", cfg, got, want)
				}
			}
			if len(want) > 0 {
				served = len(got) / len(want)
			}
		}
		cancel()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			t.Fatalf("manager does not stop")
		}
	}
}
