// pkg: encoding
package encoding

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"testing"
	"time"
)

type vfBase struct {
	ID string `vflow:"1,required"`
}
type vfA struct {
	vfBase
	X *string `vflow:"2"`
}
type vfB struct {
	ID string  `vflow:"1,required"`
	N  *uint64 `vflow:"9"`
	x  int
	Y  int
}
type vfC struct {
	A string `vflow:"3"`
}
type vfEmpty struct{}
type vfDup struct {
	A string `vflow:"3"`
	B string `vflow:"3"`
}
type vfDupReq struct {
	A string  `vflow:"1,required"`
	B *string `vflow:"1"`
}
type vfDupFar struct {
	A *string `vflow:"7"`
	B string  `vflow:"8"`
	C string  `vflow:"9"`
	D *uint64 `vflow:"7"`
}
type VfDupBase struct {
	ID string `vflow:"5"`
}
type vfDupEmbed struct {
	VfDupBase
	X *string `vflow:"5"`
}
type vfBadTag struct {
	A string `vflow:"x"`
}
type vfBadOpt struct {
	A string `vflow:"1,maybe"`
}
type vfBadType struct {
	A []string `vflow:"1"`
}
type vfBadPtr struct {
	A *float64 `vflow:"1"`
}

var vfGood = []any{vfA{}, &vfA{}, vfB{}, &vfB{}, vfC{}, &vfC{}, vfEmpty{}, &vfEmpty{}}
var vfBad = []any{vfDup{}, &vfDup{}, vfDupFar{}, vfDupReq{}, vfDupEmbed{}, vfBadTag{}, vfBadOpt{}, vfBadType{}, &vfBadPtr{}, nil, 3, "x", []int{}, (*vfA)(nil), new(int)}

func TestVerifC04Registry(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	secs, err := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if err != nil {
		secs = 5
	}
	r := rand.New(rand.NewSource(seed))
	end := time.Now().Add(time.Duration(secs) * time.Second)
	saveE, saveD := encodings, decodings
	defer func() { encodings, decodings = saveE, saveD }()
	for n := 0; n < 20000 && time.Now().Before(end); n++ {
		encodings, decodings = map[reflect.Type]*typeEncoding{}, map[uint32]*typeEncoding{}
		types, codes := map[reflect.Type]uint32{}, map[uint32]reflect.Type{}
		var hist string
		for k := 0; k < 8; k++ {
			code := uint32(r.Intn(5))
			bad := r.Intn(3) == 0
			rec := vfGood[r.Intn(len(vfGood))]
			if bad {
				rec = vfBad[r.Intn(len(vfBad))]
			}
			var typ reflect.Type
			ok := !bad
			if ok {
				typ = reflect.Indirect(reflect.ValueOf(rec)).Type()
				_, usedT := types[typ]
				_, usedC := codes[code]
				ok = !usedT && !usedC
			}
			hist += fmt.Sprintf(" register(%d, %T)", code, rec)
			panicked := func() (p bool) {
				defer func() { p = recover() != nil }()
				MustRegisterRecord(code, rec)
				return
			}()
			if panicked == ok {
				t.Fatalf("history%s: panicked=%v, want %v", hist, panicked, !ok)
			}
			if ok {
				types[typ], codes[code] = code, typ
			}
			if !mu.TryLock() {
				t.Fatalf("history%s: the registry is left locked", hist)
			}
			mu.Unlock()
			for i := uint32(0); i < 5; i++ {
				out, err := Decode(map[any]any{uint32(0): i, uint32(1): "a", uint32(3): "b"})
				want, has := codes[i]
				if has != (err == nil) {
					t.Fatalf("history%s: decoding code %d: %v", hist, i, err)
				}
				if has && reflect.TypeOf(out) != reflect.PointerTo(want) {
					t.Fatalf("history%s: code %d decodes as %T", hist, i, out)
				}
			}
			for _, g := range []any{vfA{vfBase: vfBase{"a"}}, vfB{ID: "a"}, vfC{A: "b"}, vfEmpty{}, vfDup{"a", "b"}} {
				out, err := Encode(g)
				want, has := types[reflect.TypeOf(g)]
				if has != (err == nil) {
					t.Fatalf("history%s: encoding %T: %v", hist, g, err)
				}
				if has && out[uint32(0)] != want {
					t.Fatalf("history%s: %T encodes with code %v", hist, g, out[uint32(0)])
				}
			}
			if len(encodings) != len(types) || len(decodings) != len(codes) {
				t.Fatalf("history%s: %d types, %d codes registered, want %d", hist, len(encodings), len(decodings), len(codes))
			}
		}
	}
}
