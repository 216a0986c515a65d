// pkg: store race
package store

import (
	"context"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/c-kruse/vanflow"
)

func TestVerifC10Counter(t *testing.T) {
	ctx := context.Background()
	start := time.Now()
	for time.Since(start) < 2*time.Second && !t.Failed() {
		s := NewDefaultCachingStore(CacheConfig{})
		ex := Entry{Record: vanflow.SiteRecord{BaseRecord: vanflow.NewBase("x")}, Meta: Metadata{Annotations: map[string]string{"n": "0"}}}
		s.Add(ctx, ex)
		var done int64
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 50; j++ {
					g, _ := s.Get(ctx, ex)
					n, _ := strconv.Atoi(g.Meta.Annotations["n"])
					e := g.Entry
					e.Meta.Annotations = map[string]string{"n": strconv.Itoa(n + 1)}
					if s.Update(WithIfMatch(ctx, g.ETag), e) == nil {
						atomic.AddInt64(&done, 1)
					}
				}
			}()
		}
		wg.Wait()
		g, _ := s.Get(ctx, ex)
		if g.Meta.Annotations["n"] != strconv.Itoa(int(done)) {
			t.Errorf("%d conditional updates succeeded, the count is %s", done, g.Meta.Annotations["n"])
		}
	}
}
