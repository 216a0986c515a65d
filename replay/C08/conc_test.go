// pkg: store race
package store

import (
	"context"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/c-kruse/vanflow"
)

func TestVerifC08Atomic(t *testing.T) {
	ctx := context.Background()
	start := time.Now()
	for time.Since(start) < 2*time.Second && !t.Failed() {
		s := NewDefaultCachingStore(CacheConfig{})
		e := Entry{Record: vanflow.SiteRecord{BaseRecord: vanflow.NewBase("x")}}
		var ok, del int32
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if s.Add(ctx, e) == nil {
					atomic.AddInt32(&ok, 1)
				}
				s.List(ctx, &Selector{})
				s.Index(ctx, IndexBySource, e, nil)
				s.IndexValues(ctx, IndexBySource)
				s.Accumulate(SourceRef{}, vanflow.SiteRecord{BaseRecord: vanflow.NewBase("y")})
				s.Get(ctx, e)
				_ = del
			}()
		}
		wg.Wait()
		if ok != 1 {
			t.Errorf("%d concurrent adds of one key succeeded", ok)
		}
	}
}
