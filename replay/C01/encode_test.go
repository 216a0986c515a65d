// pkg: .
package vanflow

import (
	"math/rand"
	"reflect"
	"testing"
	"time"

	"github.com/c-kruse/vanflow/encoding"
)

type vfUnregistered struct{ BaseRecord }

func TestVerifC01Encode(t *testing.T) {
	r := rand.New(rand.NewSource(vfSeed()))
	end := time.Now().Add(vfBudget())
	for n := 0; n < 300000 && time.Now().Before(end); n++ {
		i := n % len(vfTable)
		rec, want, ok := vfRecord(r, i, true)
		got, err := encoding.Encode(rec)
		if (err == nil) != ok {
			t.Fatalf("encode %T %+v: error %v, want success=%v", rec, rec, err, ok)
		}
		if ok && !reflect.DeepEqual(got, want) {
			t.Fatalf("encode %T %+v:\ngot  %v\nwant %v", rec, rec, got, want)
		}
	}
}

func TestVerifC01Rejected(t *testing.T) {
	var nilp *SiteRecord
	var nilu *vfUnregistered
	for _, x := range []any{nil, nilp, nilu, vfUnregistered{NewBase("a")}, &vfUnregistered{NewBase("a")}, 1, "x", map[any]any{}, new(int), &nilp, &SiteRecord{}, SiteRecord{}, BaseRecord{ID: "a"}} {
		if got, err := encoding.Encode(x); err == nil {
			t.Errorf("encode %T %+v: got %v, want an error", x, x, got)
		}
	}
}
