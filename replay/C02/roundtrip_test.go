// pkg: .
package vanflow

import (
	"math/rand"
	"reflect"
	"testing"
	"time"

	"github.com/c-kruse/vanflow/encoding"
)

func TestVerifC02RoundTrip(t *testing.T) {
	r := rand.New(rand.NewSource(vfSeed()))
	end := time.Now().Add(vfBudget())
	for n := 0; n < 200000 && time.Now().Before(end); n++ {
		i := n % len(vfTable)
		rec, _, ok := vfRecord(r, i, false)
		if !ok {
			continue
		}
		attrs, err := encoding.Encode(rec)
		if err != nil {
			continue // C01
		}
		keep := map[any]any{}
		for k, v := range attrs {
			keep[k] = v
		}
		out, err := encoding.Decode(attrs)
		if err != nil {
			t.Fatalf("decoding the encoding %v of %T %+v: %v", attrs, rec, rec, err)
		}
		in, got := reflect.Indirect(reflect.ValueOf(rec)), reflect.Indirect(reflect.ValueOf(out))
		if in.Type() != got.Type() {
			t.Fatalf("%T came back as %T", rec, out)
		}
		if a, b := in.FieldByName("ID").String(), got.FieldByName("ID").String(); a != b {
			t.Fatalf("%T: identity %q came back as %q", rec, a, b)
		}
		for _, a := range vfAttrs(i) {
			f, g := in.FieldByName(a.name), got.FieldByName(a.name)
			set := !f.IsNil() && !f.Elem().IsZero()
			if set != !g.IsNil() {
				t.Fatalf("%T: field %s set: %v before, %v after (attributes %v)", rec, a.name, set, !g.IsNil(), attrs)
			}
			if !set {
				continue
			}
			if a.kind == 't' {
				x, y := f.Interface().(*Time).Time, g.Interface().(*Time).Time
				if x.UnixMicro() != y.UnixMicro() || y.Nanosecond()%1000 != 0 {
					t.Fatalf("%T: %s %v came back as %v", rec, a.name, x, y)
				}
			} else if !reflect.DeepEqual(f.Elem().Interface(), g.Elem().Interface()) {
				t.Fatalf("%T: %s %v came back as %v", rec, a.name, f.Elem(), g.Elem())
			}
		}
		again, err := encoding.Encode(out)
		if err != nil || !reflect.DeepEqual(again, keep) {
			t.Fatalf("%T re-encoded: %v %v, want %v", rec, again, err, keep)
		}
	}
}
