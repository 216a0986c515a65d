// pkg: .
package vanflow

import (
	"math"
	"math/rand"
	"reflect"
	"testing"
	"time"

	"github.com/c-kruse/vanflow/encoding"
)

func vfJunk(r *rand.Rand) any {
	s := "p"
	return []any{nil, "", "text", uint64(0), uint64(7), uint64(math.MaxInt64), uint64(math.MaxInt64) + 1, uint64(math.MaxUint64), int64(3), int32(3), uint32(3), uint8(1), 3.5, true, []byte("x"), map[any]any{}, &s, time.Now(), Time{time.Now()}}[r.Intn(19)]
}

func TestVerifC03Decode(t *testing.T) {
	r := rand.New(rand.NewSource(vfSeed()))
	end := time.Now().Add(vfBudget())
	for n := 0; n < 300000 && time.Now().Before(end); n++ {
		i := n % len(vfTable)
		attrs := map[any]any{}
		ok := true
		switch r.Intn(12) {
		case 0:
			ok = false
		case 1:
			attrs[uint32(0)] = []any{uint32(len(vfTable)), uint32(math.MaxUint32), int32(0), uint64(0), nil, "0", 0}[r.Intn(7)]
			ok = false
		default:
			attrs[uint32(0)] = vfTable[i].code
		}
		id := "id"
		switch r.Intn(8) {
		case 0:
			ok = false
		case 1:
			attrs[uint32(1)] = vfJunk(r)
			s, is := attrs[uint32(1)].(string)
			ok, id = ok && is, s
		default:
			attrs[uint32(1)] = id
		}
		known := map[uint32]bool{0: true, 1: true}
		for _, a := range vfAttrs(i) {
			known[a.code] = true
			var v any
			switch k := r.Intn(40); {
			case k < 20:
				continue
			case k == 20:
				v = vfJunk(r)
			case a.kind == 's':
				v = vfStr(r)
			case a.kind == 'u':
				v = vfNum(r)
			default:
				v = uint64(r.Int63())
			}
			attrs[a.code] = v
			switch x := v.(type) {
			case string:
				ok = ok && a.kind == 's'
			case uint64:
				ok = ok && (a.kind == 'u' || a.kind == 't' && x <= math.MaxInt64)
			default:
				ok = false
			}
		}
		for k := r.Intn(4); k > 0; k-- {
			c := uint32(r.Intn(70))
			if !known[c] {
				attrs[c] = vfJunk(r)
			}
			attrs[[]any{"x", int64(9), uint64(1), nil, int32(3)}[r.Intn(5)]] = vfJunk(r)
		}
		out, err := encoding.Decode(attrs)
		if (err == nil) != ok {
			t.Fatalf("decode %v: %v %v, want success=%v", attrs, out, err, ok)
		}
		if !ok {
			continue
		}
		got := reflect.ValueOf(out)
		if got.Type() != reflect.PointerTo(vfTable[i].typ) {
			t.Fatalf("decode %v: got a %T", attrs, out)
		}
		got = got.Elem()
		if g := got.FieldByName("ID").String(); g != id {
			t.Fatalf("decode %v: identity %q", attrs, g)
		}
		for _, a := range vfAttrs(i) {
			g := got.FieldByName(a.name)
			v, has := attrs[a.code]
			if has != !g.IsNil() {
				t.Fatalf("decode %v: %T field %s set=%v", attrs, out, a.name, !g.IsNil())
			}
			if !has {
				continue
			}
			if a.kind == 't' {
				if x := g.Interface().(*Time); !x.Equal(time.UnixMicro(int64(v.(uint64)))) {
					t.Fatalf("decode %v: %T field %s = %v", attrs, out, a.name, x)
				}
			} else if g.Elem().Interface() != v {
				t.Fatalf("decode %v: %T field %s = %v", attrs, out, a.name, g.Elem())
			}
		}
	}
}

func TestVerifC03Nil(t *testing.T) {
	if _, err := encoding.Decode(nil); err == nil {
		t.Fatal("nil attribute set accepted")
	}
}
