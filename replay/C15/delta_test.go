// pkg: eventsource
package eventsource

import (
	"math/rand"
	"reflect"
	"testing"
	"time"

	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/encoding"
)

func TestVerifC15Delta(t *testing.T) {
	rnd := rand.New(rand.NewSource(vfSeed()))
	end := time.Now().Add(vfBudget())
	for n := 0; n < 200000 && time.Now().Before(end) && !t.Failed(); n++ {
		typ := vfTypes[rnd.Intn(len(vfTypes))]
		var d RecordUpdate
		d.Curr = vfRecord(rnd, typ, "id1")
		switch rnd.Intn(12) {
		case 0:
		case 1:
			d.Prev = d.Curr
		case 2:
			d.Prev = vfBad{vanflow.NewBase("id1")}
		case 3:
			d.Prev, d.Curr = d.Curr, vfBad{vanflow.NewBase("id1")}
		default:
			d.Prev = vfRecord(rnd, typ, "id1")
		}
		got, ok := diffRecord(d)
		if d.Prev == nil {
			if !ok || !reflect.DeepEqual(got, d.Curr) {
				t.Fatalf("no previous version: got %v %v, want the current record", got, ok)
			}
			continue
		}
		prev, err1 := encoding.Encode(d.Prev)
		next, err2 := encoding.Encode(d.Curr)
		want := map[any]any{}
		changed := false
		if err1 == nil && err2 == nil {
			for k, v := range next {
				p, has := prev[k]
				if !has || p != v {
					changed = true
					want[k] = v
				}
				if c, is := k.(uint32); is && c < 2 {
					want[k] = v
				}
			}
		}
		if ok != changed {
			t.Fatalf("update from %v to %v: something to send = %v, want %v", prev, next, ok, changed)
		}
		if !ok {
			continue
		}
		attrs, err := encoding.Encode(got)
		if err != nil {
			t.Fatalf("delta does not encode: %s", err)
		}
		if !reflect.DeepEqual(map[any]any(attrs), want) {
			t.Fatalf("update from %v to %v: delta %v, want %v", prev, next, attrs, want)
		}
	}
}
