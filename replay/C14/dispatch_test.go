// pkg: store
package store

import (
	"errors"
	"fmt"
	"math/rand"
	"testing"

	"github.com/c-kruse/vanflow"
)

type vDispCall struct {
	store  int
	source SourceRef
	rec    vanflow.Record
}

type vDispStore struct {
	Interface
	id   int
	fail bool
	log  *[]vDispCall
}

func (s *vDispStore) Accumulate(source SourceRef, record vanflow.Record) error {
	*s.log = append(*s.log, vDispCall{s.id, source, record})
	if s.fail {
		return errors.New("failing store")
	}
	return nil
}

func TestVerifC14Dispatch(t *testing.T) {
	rnd := rand.New(rand.NewSource(7))
	mk := []func(string) vanflow.Record{
		func(id string) vanflow.Record { return vanflow.SiteRecord{BaseRecord: vanflow.NewBase(id)} },
		func(id string) vanflow.Record { return &vanflow.SiteRecord{BaseRecord: vanflow.NewBase(id)} },
		func(id string) vanflow.Record { return vanflow.LinkRecord{BaseRecord: vanflow.NewBase(id)} },
		func(id string) vanflow.Record { return vanflow.RouterRecord{BaseRecord: vanflow.NewBase(id)} },
		func(id string) vanflow.Record { return vanflow.ProcessRecord{BaseRecord: vanflow.NewBase(id)} },
		func(id string) vanflow.Record { return vanflow.FlowRecord{BaseRecord: vanflow.NewBase(id)} },
		func(id string) vanflow.Record { return &vanflow.LogRecord{BaseRecord: vanflow.NewBase(id)} },
	}
	for n := 0; n < 3000 && !t.Failed(); n++ {
		var reg DispatchRegistry
		var log []vDispCall
		want := map[vanflow.TypeMeta]int{}
		stores := 0
		register := func() {
			r := mk[rnd.Intn(len(mk))]("r")
			s := &vDispStore{id: stores, fail: rnd.Intn(3) == 0, log: &log}
			stores++
			reg.RegisterStore(r, s)
			want[r.GetTypeMeta()] = s.id
		}
		for i := rnd.Intn(6); i > 0; i-- {
			register()
		}
		src := SourceRef{Name: fmt.Sprint("source", n)}
		d := reg.NewDispatcher(src)
		snap := map[vanflow.TypeMeta]int{}
		for k, v := range want {
			snap[k] = v
		}
		for i := rnd.Intn(3); i > 0; i-- {
			register()
		}
		var msg vanflow.RecordMessage
		var exp []vDispCall
		for i := rnd.Intn(8); i > 0; i-- {
			r := mk[rnd.Intn(len(mk))](fmt.Sprint("rec", i))
			msg.Records = append(msg.Records, r)
			if id, ok := snap[r.GetTypeMeta()]; ok {
				exp = append(exp, vDispCall{id, src, r})
			}
		}
		d.Dispatch(msg)
		if len(exp) != len(log) {
			t.Errorf("case %d: %d records accumulated, want %d", n, len(log), len(exp))
			break
		}
		for i := range exp {
			if exp[i] != log[i] {
				t.Errorf("case %d: accumulation %d is %v, want %v", n, i, log[i], exp[i])
			}
		}
	}
}
