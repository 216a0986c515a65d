// pkg: store race
package store

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/c-kruse/vanflow"
)

// All operations at once, with handlers that use the store.
func TestVerifC23Store(t *testing.T) {
	end := time.Now().Add(vBudget())
	seed := vSeed()
	for n := 0; (n < 5 || time.Now().Before(end)) && n < 100 && !t.Failed(); n++ {
		var s Interface
		use := func(e Entry) { s.Get(context.Background(), e); s.List(context.Background(), nil) }
		s = NewDefaultCachingStore(CacheConfig{
			Key: func(e Entry) (string, error) {
				if e.Record.Identity() == "bad" {
					return "", errors.New("no key")
				}
				return e.Record.Identity(), nil
			},
			EventHandlers: EventHandlerFuncs{
				OnAdd:    use,
				OnChange: func(p, e Entry) { use(e) },
				OnDelete: use,
			},
		})
		ctx := context.Background()
		var wg sync.WaitGroup
		base := seed.Int()
		for k := 0; k < 8; k++ {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 40; i++ {
					id := fmt.Sprint("id", (base+i)%5)
					if (base+i)%11 == 0 {
						id = "bad"
					}
					name := fmt.Sprint(i)
					rec := vanflow.SiteRecord{BaseRecord: vanflow.NewBase(id), Name: &name}
					e := Entry{Meta: Metadata{Source: SourceRef{Name: fmt.Sprint(k % 2)}}, TypeMeta: rec.GetTypeMeta(), Record: rec}
					switch k {
					case 0:
						s.Add(ctx, e)
					case 1:
						if g, err := s.Get(ctx, e); err == nil {
							s.Update(WithIfMatch(ctx, g.ETag), e)
						}
						s.Update(WithIfMatch(ctx, "0"), e)
					case 2:
						s.Delete(ctx, e)
					case 3:
						s.Replace(ctx, []Entry{e})
					case 4:
						s.Accumulate(e.Meta.Source, rec)
					case 5:
						s.List(ctx, nil)
					case 6:
						s.Index(ctx, "source", e, nil)
						s.IndexValues(ctx, "source")
					case 7:
						s.Update(ctx, e)
					}
				}
			}()
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			t.Fatal("store operations do not return")
		}
	}
}
