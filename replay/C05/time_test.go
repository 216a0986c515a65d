// pkg: .
package vanflow

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"testing"
	"time"

	"github.com/c-kruse/vanflow/encoding"
)

// micros is the count of whole microseconds between the epoch and t, rounded down.
func vfMicros(t time.Time) *big.Int {
	n := new(big.Int).Mul(big.NewInt(t.Unix()), big.NewInt(1000000))
	return n.Add(n, big.NewInt(int64(t.Nanosecond()/1000)))
}

func TestVerifC05Time(t *testing.T) {
	r := rand.New(rand.NewSource(vfSeed()))
	end := time.Now().Add(vfBudget())
	zones := []*time.Location{time.UTC, time.FixedZone("a", 3600*5+1800), time.FixedZone("b", -3600*11)}
	n := 0
	for ; n < 400000 && time.Now().Before(end) && !t.Failed(); n++ {
		// encoding
		var at time.Time
		sec := []int64{0, 1, -1, 2, r.Int63n(4e9), -r.Int63n(6e10), r.Int63n(9e12), math.MaxInt64 / 1000000, 9214646400, 253402300800, -62135596800}[r.Intn(11)]
		nano := []int64{0, 1, 499, 500, 501, 999, 1000, 1500, 999999, 999999999, 999999500, r.Int63n(1e9)}[r.Intn(12)]
		at = time.Unix(sec, nano).In(zones[r.Intn(3)])
		if r.Intn(20) == 0 {
			at = time.Now() // has a monotonic reading
		}
		if r.Intn(50) == 0 {
			at = time.Time{}.In(zones[r.Intn(3)])
		}
		want := vfMicros(at)
		got, err := (Time{at}).EncodeRecordAttribute()
		switch {
		case at.IsZero():
			if !errors.Is(err, encoding.ErrAttributeNotSet) {
				t.Errorf("unset timestamp: %v, %v", got, err)
			}
		case want.Sign() < 0:
			if err == nil || errors.Is(err, encoding.ErrAttributeNotSet) {
				t.Errorf("%v (before the epoch): %v, %v", at, got, err)
			}
		case !want.IsInt64():
		default:
			u, ok := got.(uint64)
			if err != nil || !ok || u != want.Uint64() {
				t.Errorf("%v encodes as %T %v (%v), want %v", at, got, got, err, want)
				break
			}
			var back Time
			if err := back.DecodeRecordAttribute(got); err != nil || vfMicros(back.Time).Cmp(want) != 0 || back.Nanosecond()%1000 != 0 {
				t.Errorf("%v decodes as %v, %v", u, back, err)
			}
		}
		// decoding
		was := Time{time.Unix(r.Int63n(1e9), r.Int63n(1e9))}
		if r.Intn(4) == 0 {
			was = Time{}
		}
		now := was
		in := vfJunk05(r)
		err = now.DecodeRecordAttribute(in)
		u, ok := in.(uint64)
		if ok && u <= math.MaxInt64 {
			if err != nil || vfMicros(now.Time).Cmp(new(big.Int).SetUint64(u)) != 0 || now.Nanosecond()%1000 != 0 {
				t.Errorf("decoding %T %v: %v, %v", in, in, now, err)
			}
		} else if err == nil || now != was {
			t.Errorf("decoding %T %v over %v: %v, error %v", in, in, was, now, err)
		}
	}
	fmt.Printf("REPLAY-SUMMARY %d timestamps\n", n)
}

func vfJunk05(r *rand.Rand) any {
	s := "p"
	return []any{nil, "", "text", uint64(0), uint64(7), uint64(math.MaxInt64), uint64(math.MaxInt64) + 1, uint64(math.MaxUint64), int64(3), int32(3), uint32(3), uint8(1), 3.5, true, []byte("x"), map[any]any{}, &s, time.Now(), Time{time.Now()}, r.Uint64(), r.Uint64() >> 1, r.Uint64() >> 20, uint(5), -1}[r.Intn(24)]
}
