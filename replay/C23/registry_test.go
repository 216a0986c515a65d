// pkg: encoding race
package encoding

import (
	"sync"
	"testing"
	"time"
)

type vC23A struct {
	ID string `vflow:"1,required"`
}
type vC23B struct {
	ID string `vflow:"1,required"`
}
type vC23Bad struct {
	ID []string `vflow:"1,required"`
}

func TestVerifC23Registry(t *testing.T) {
	var wg sync.WaitGroup
	reg := func(c uint32, x any) {
		defer func() { recover() }()
		MustRegisterRecord(c, x)
	}
	for k := 0; k < 4; k++ {
		wg.Add(2)
		go func() {
			defer wg.Done()
			reg(900, vC23A{})
			reg(901, vC23Bad{})
			reg(902, vC23B{})
			reg(900, vC23B{})
		}()
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				Encode(vC23A{"a"})
				Encode(3)
				Decode(map[any]any{uint32(0): uint32(900), uint32(1): "x"})
				Decode(map[any]any{uint32(0): uint32(900), uint32(1): 4})
				Decode(map[any]any{uint32(0): uint32(977), uint32(1): 4})
				Decode(map[any]any{uint32(0): "x"})
				Encode((*vC23A)(nil))
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); reg(901, vC23Bad{}); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("the registry is left locked")
	}
}
