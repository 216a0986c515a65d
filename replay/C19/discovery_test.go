// pkg: eventsource race
package eventsource

import (
	"context"
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"testing"
	"time"

	amqp "github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow"
)

type vC19Log struct {
	mu        sync.Mutex
	found     map[string][]Info
	lost      map[string][]Info
	container *vfContainer
}

func (l *vC19Log) handlers() DiscoveryHandlers {
	return DiscoveryHandlers{
		Discovered: func(i Info) { l.mu.Lock(); defer l.mu.Unlock(); l.found[i.ID] = append(l.found[i.ID], i) },
		Forgotten:  func(i Info) { l.mu.Lock(); defer l.mu.Unlock(); l.lost[i.ID] = append(l.lost[i.ID], i) },
	}
}

func vC19Info(rnd *rand.Rand, id string) Info {
	i := Info{ID: id, Version: rnd.Intn(3), Type: fmt.Sprint("T", rnd.Intn(3)), Address: fmt.Sprint("a", rnd.Intn(9)), Direct: fmt.Sprint("d", rnd.Intn(9))}
	if rnd.Intn(2) == 0 {
		i.LastSeen = time.Unix(int64(1000+rnd.Intn(1000)), 0)
	}
	return i
}

func vC19Beacon(i Info) *amqp.Message {
	return vanflow.BeaconMessage{Identity: i.ID, Version: uint32(i.Version), SourceType: i.Type, Address: i.Address, Direct: i.Direct}.Encode()
}

func vC19Same(a, b Info) bool {
	return a.ID == b.ID && a.Version == b.Version && a.Type == b.Type && a.Address == b.Address && a.Direct == b.Direct
}

// Random sequences of beacons and operations against a model.
func TestVerifC19Sequence(t *testing.T) {
	rnd := rand.New(rand.NewSource(vfSeed()))
	end := time.Now().Add(vfBudget())
	for n := 0; (n < 40 || time.Now().Before(end)) && n < 2000 && !t.Failed(); n++ {
		c := newVfContainer()
		addr := ""
		if rnd.Intn(2) == 0 {
			addr = "other.beacons"
		}
		d := NewDiscovery(c, DiscoveryOptions{BeaconAddress: addr})
		if addr == "" {
			addr = "mc/sfe.all"
		}
		q := c.queue(addr)
		log := &vC19Log{found: map[string][]Info{}, lost: map[string][]Info{}}
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan error, 1)
		go func() { done <- d.Run(ctx, log.handlers()) }()
		model := map[string]Info{}
		found, lost := map[string][]Info{}, map[string][]Info{}
		wait := 0
		for i := 0; i < 30+rnd.Intn(60) && !t.Failed(); i++ {
			id := fmt.Sprint("s", rnd.Intn(5))
			info := vC19Info(rnd, id)
			known, ok := model[id]
			op := rnd.Intn(6)
			switch op {
			case 0, 1:
				before := time.Now()
				q <- vfDelivery{msg: vC19Beacon(info)}
				wait++
				if !vfWait(3*time.Second, func() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.nexts[addr] > wait }) {
					t.Fatal("beacon not received")
				}
				got, there := d.Get(id)
				if !there || ok && !vC19Same(got, known) || !ok && !vC19Same(got, info) {
					t.Fatalf("beacon %+v: known %v %+v: recorded %v %+v", info, ok, known, there, got)
				}
				if got.LastSeen.Before(before) || got.LastSeen.After(time.Now()) {
					t.Fatalf("last seen %v, want after %v", got.LastSeen, before)
				}
				model[id] = got
				if !ok {
					found[id] = append(found[id], got)
				}
			case 2:
				if got := d.Add(info); got == ok {
					t.Fatalf("add known %v: %v", ok, got)
				}
				if !ok {
					model[id] = info
					found[id] = append(found[id], info)
				}
			case 3:
				if got := d.Forget(id); got != ok {
					t.Fatalf("forget known %v: %v", ok, got)
				}
				if ok {
					lost[id] = append(lost[id], known)
					delete(model, id)
				}
			case 4:
				got, there := d.Get(id)
				if there != ok || got != known {
					t.Fatalf("get: %v %+v, want %v %+v", there, got, ok, known)
				}
			case 5:
				// a report of activity
				at := time.Unix(int64(500+rnd.Intn(2000)), 0)
				if rnd.Intn(2) == 0 {
					at = time.Now()
				}
				d.lastSeen(id, at)
				if ok && at.After(known.LastSeen) {
					known.LastSeen = at
					model[id] = known
				}
			}
			list := d.List()
			sort.Slice(list, func(i, j int) bool { return list[i].ID < list[j].ID })
			if len(list) != len(model) {
				t.Fatalf("op %d: list %+v, want %+v", op, list, model)
			}
			for i, x := range list {
				if x != model[x.ID] || i > 0 && x.ID == list[i-1].ID {
					t.Fatalf("op %d: list %+v, want %+v", op, list, model)
				}
			}
		}
		check := func(kind string, got, want map[string][]Info) bool {
			for k := range want {
				if len(got[k]) < len(want[k]) {
					return false
				}
			}
			for k, v := range got {
				if len(v) > len(want[k]) {
					t.Errorf("%s %s: %d times, want %d", kind, k, len(v), len(want[k]))
					continue
				}
				for i := range v {
					if v[i] != want[k][i] {
						t.Errorf("%s: %+v, want %+v", kind, v[i], want[k][i])
					}
				}
			}
			return true
		}
		ok := vfWait(3*time.Second, func() bool {
			log.mu.Lock()
			defer log.mu.Unlock()
			a, b := check("discovered", log.found, found), check("forgotten", log.lost, lost)
			return a && b || t.Failed()
		})
		time.Sleep(time.Millisecond)
		log.mu.Lock()
		check("discovered", log.found, found)
		check("forgotten", log.lost, lost)
		if !ok {
			t.Errorf("notified found %v lost %v, want %v %v", log.found, log.lost, found, lost)
		}
		log.mu.Unlock()
		cancel()
		select {
		case <-done:
		case <-time.After(3 * time.Second):
			t.Fatal("Run does not return")
		}
	}
}

// Concurrent operations: every appearance and removal is announced exactly once.
func TestVerifC19Concurrent(t *testing.T) {
	end := time.Now().Add(vfBudget())
	for n := 0; (n < 40 || time.Now().Before(end)) && n < 2000 && !t.Failed(); n++ {
		c := newVfContainer()
		d := NewDiscovery(c, DiscoveryOptions{})
		q := c.queue("mc/sfe.all")
		log := &vC19Log{found: map[string][]Info{}, lost: map[string][]Info{}}
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan error, 1)
		go func() { done <- d.Run(ctx, log.handlers()) }()
		var wg sync.WaitGroup
		var mu sync.Mutex
		added, forgot := 0, 0
		seed := vfSeed()
		for g := 0; g < 6; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				rnd := rand.New(rand.NewSource(seed*1000 + int64(n*10+g)))
				for i := 0; i < 50; i++ {
					id := fmt.Sprint("s", rnd.Intn(2))
					switch rnd.Intn(4) {
					case 0:
						d.Get(id)
						d.List()
						d.lastSeen(id, time.Now())
					case 1, 2:
						if d.Add(vC19Info(rnd, id)) {
							mu.Lock()
							added++
							mu.Unlock()
						}
					case 3:
						if d.Forget(id) {
							mu.Lock()
							forgot++
							mu.Unlock()
						}
					}
				}
			}(g)
		}
		for i := 0; i < 20; i++ {
			q <- vfDelivery{msg: vC19Beacon(Info{ID: "beacon", Version: 1})}
		}
		wg.Wait()
		if !vfWait(3*time.Second, func() bool { _, ok := d.Get("beacon"); return ok && len(q) == 0 }) {
			t.Fatal("beacon not recorded")
		}
		count := func() (int, int) {
			log.mu.Lock()
			defer log.mu.Unlock()
			f, l := 0, 0
			for _, v := range log.found {
				f += len(v)
			}
			for _, v := range log.lost {
				l += len(v)
			}
			return f, l
		}
		vfWait(3*time.Second, func() bool { f, l := count(); return f >= added+1 && l >= forgot })
		time.Sleep(time.Millisecond)
		if f, l := count(); f != added+1 || l != forgot || f-l != len(d.List()) {
			t.Errorf("announced %d found, %d lost; added %d, forgot %d, listed %d", f, l, added, forgot, len(d.List()))
		}
		cancel()
		<-done
	}
}
