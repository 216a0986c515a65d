// pkg: store
package store

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/encoding"
)

func vSeed() *rand.Rand {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(seed))
}

func vBudget() time.Duration {
	n, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if n == 0 {
		n = 5
	}
	return time.Duration(n) * time.Second
}

// vModel runs random histories on the store and a model of it; report is called with the property a difference concerns.
type vModel struct {
	t     *testing.T
	rng   *rand.Rand
	want  string // property to report
	s     Interface
	key   func(Entry) (string, error)
	items map[string]Entry
	tags  map[string]string          // current etag by key, as last read
	seen  map[string]map[string]bool // etags ever given to a write of a key
	idx   map[string]func(Entry) []string
	ev    []string
	log   []string
	h     EventHandlerFuncs
	bad   bool
}

func (m *vModel) fail(prop, f string, args ...any) {
	if prop == m.want && !m.bad {
		m.bad = true
		lg := m.log
		if len(lg) > 25 {
			lg = lg[len(lg)-25:]
		}
		m.t.Errorf("%s\nhistory (last %d):\n%s", fmt.Sprintf(f, args...), len(lg), strings.Join(lg, "\n"))
	}
}

func vEnc(r any) (a map[any]any) {
	defer func() {
		if recover() != nil {
			a = nil
		}
	}()
	a, err := encoding.Encode(r)
	if err != nil {
		return nil
	}
	return a
}

func vSame(a, b Entry) bool {
	a.Meta.UpdatedAt, b.Meta.UpdatedAt = time.Time{}, time.Time{}
	return reflect.DeepEqual(a, b)
}

func vStr(e Entry) string {
	return fmt.Sprintf("{%s %v %v %v}", e.TypeMeta.Type, e.Meta.Source, e.Meta.Annotations, vEnc(e.Record))
}

func (m *vModel) record() vanflow.Record {
	p := func(s string) *string {
		if m.rng.Intn(2) == 0 {
			return nil
		}
		s += strconv.Itoa(m.rng.Intn(2))
		return &s
	}
	id := "id" + strconv.Itoa(m.rng.Intn(6))
	if m.rng.Intn(30) == 0 {
		id = "" // cannot be encoded
	}
	b := vanflow.NewBase(id)
	switch m.rng.Intn(24) {
	case 0:
		b = vanflow.NewBase(id, time.Unix(-5, 0)) // cannot be encoded either
	case 1, 2:
		b = vanflow.NewBase(id, time.Unix(int64(m.rng.Intn(2)), 0))
	}
	switch m.rng.Intn(8) {
	case 0:
		return &vanflow.RouterRecord{BaseRecord: b, Parent: p("p"), Mode: p("m"), Name: p("n")}
	case 1:
		u := uint64(m.rng.Intn(2))
		return vanflow.LinkRecord{BaseRecord: b, Name: p("n"), LinkCost: &u}
	default:
		return vanflow.SiteRecord{BaseRecord: b, Location: p("l"), Name: p("n"), Platform: p("k")}
	}
}

func (m *vModel) source() SourceRef {
	if m.rng.Intn(6) == 0 {
		return []SourceRef{{}, {Type: "t"}, {APIVersion: "v", Name: "s1"}, {Name: "s0"}}[m.rng.Intn(4)]
	}
	return SourceRef{APIVersion: "v", Type: "t", Name: "s" + strconv.Itoa(m.rng.Intn(2))}
}

func (m *vModel) entry() Entry {
	r := m.record()
	e := Entry{Record: r, TypeMeta: r.GetTypeMeta(), Meta: Metadata{Source: m.source()}}
	if m.rng.Intn(2) == 0 {
		var vs []string
		for i := 0; i < m.rng.Intn(3); i++ {
			vs = append(vs, strconv.Itoa(m.rng.Intn(3)))
		}
		e.Meta.Annotations = map[string]string{"v": strings.Join(vs, ","), "skupper.io/flow/site-id": "site" + strconv.Itoa(m.rng.Intn(2))}
	}
	return e
}

func vOff(e EventHandlerFuncs, s string) bool {
	switch s[:3] {
	case "add":
		return e.OnAdd == nil
	case "chg":
		return e.OnChange == nil
	}
	return e.OnDelete == nil
}

func newVModel(t *testing.T, rng *rand.Rand, want string) *vModel {
	m := &vModel{t: t, rng: rng, want: want, items: map[string]Entry{}, tags: map[string]string{}, seen: map[string]map[string]bool{}}
	cfg := CacheConfig{}
	m.key = func(e Entry) (string, error) { return e.Record.Identity(), nil }
	switch rng.Intn(4) {
	case 0:
		m.key = func(e Entry) (string, error) { return e.TypeMeta.Type + "/" + e.Record.Identity(), nil }
	case 1:
		m.key = func(e Entry) (string, error) {
			if e.Record.Identity() == "id5" {
				return "", fmt.Errorf("no key")
			}
			return e.Meta.Source.Name + "/" + e.Record.Identity(), nil
		}
	case 2:
		m.key = func(e Entry) (string, error) { return e.Meta.Source.Type + e.Record.Identity(), nil }
	}
	key := m.key
	if rng.Intn(3) > 0 {
		cfg.Key = func(e Entry) (string, error) { return key(e) }
	} else {
		m.key = func(e Entry) (string, error) { return e.Record.Identity(), nil }
	}
	m.idx = map[string]func(Entry) []string{
		"source": func(e Entry) []string { return []string{e.Meta.Source.String()} },
		"site": func(e Entry) []string {
			if s, ok := e.Meta.Annotations["skupper.io/flow/site-id"]; ok {
				return []string{s}
			}
			return []string{"unknown"}
		},
	}
	if rng.Intn(3) > 0 {
		m.idx = map[string]func(Entry) []string{
			"multi": func(e Entry) []string {
				if e.Meta.Annotations["v"] == "" {
					return nil
				}
				return strings.Split(e.Meta.Annotations["v"], ",")
			},
			"name": func(e Entry) []string {
				a := vEnc(e.Record)
				if n, ok := a[uint32(30)].(string); ok {
					return []string{n, "named"}
				}
				return []string{"none"}
			},
			"none": func(Entry) []string { return nil },
		}
		cfg.Indexers = map[string]CacheIndexer{}
		for n := range m.idx {
			cfg.Indexers[n] = CacheIndexer(m.idx[n])
		}
	}
	var s Interface
	note := func(x string) {
		m.ev = append(m.ev, x)
		// handlers may use the store
		done := make(chan bool)
		go func() { s.List(context.Background(), nil); close(done) }()
		select {
		case <-done:
		case <-time.After(3 * time.Second):
			m.fail("C12", "a handler cannot read the store: its lock is held")
			m.fail("C23", "a handler cannot read the store: its lock is held")
		}
	}
	if rng.Intn(4) > 0 {
		cfg.EventHandlers.OnAdd = func(e Entry) { note("add " + vStr(e)) }
	}
	if rng.Intn(4) > 0 {
		cfg.EventHandlers.OnChange = func(p, e Entry) { note("chg " + vStr(p) + " -> " + vStr(e)) }
	}
	if rng.Intn(4) > 0 {
		cfg.EventHandlers.OnDelete = func(e Entry) { note("del " + vStr(e)) }
	}
	m.h = cfg.EventHandlers
	s = NewDefaultCachingStore(cfg)
	m.s = s
	return m
}

// after checks events and contents following an operation; p is the property of the contents.
func (m *vModel) after(p, wantEv string, wrote map[string]bool) {
	want := []string{}
	if wantEv != "" && !vOff(m.h, wantEv) {
		want = append(want, wantEv)
	}
	if fmt.Sprint(want) != fmt.Sprint(m.ev) {
		m.fail("C12", "handler calls:\n got  %v\n want %v", m.ev, want)
	}
	m.ev = nil
	ctx := context.Background()
	for k, w := range m.items {
		g, err := m.s.Get(ctx, w)
		switch {
		case err != nil || !g.Found:
			m.fail(p, "entry %q is missing: %v", k, err)
			continue
		case !vSame(g.Entry, w):
			m.fail(p, "entry %q is %s, want %s", k, vStr(g.Entry), vStr(w))
		}
		if wrote[k] {
			if m.seen[k][g.ETag] {
				m.fail("C10", "a write of %q gave it an ETag it had before", k)
			}
		} else if m.tags[k] != g.ETag {
			m.fail("C10", "the ETag of %q changed without a write", k)
			m.fail(p, "entry %q was written", k)
			m.fail("C11", "entry %q was written", k)
		}
		m.tags[k] = g.ETag
		if m.seen[k] == nil {
			m.seen[k] = map[string]bool{}
		}
		m.seen[k][g.ETag] = true
	}
	all, err := m.s.List(ctx, nil)
	if err != nil || len(all.Entries) != len(m.items) {
		m.fail(p, "store lists %d entries (%v), want %d", len(all.Entries), err, len(m.items))
	}
	got := map[string]bool{}
	for _, e := range all.Entries {
		k, _ := m.key(e)
		if w, ok := m.items[k]; !ok || !vSame(w, e) || got[k] {
			m.fail(p, "listing has %s under %q: stored %v", vStr(e), k, ok)
		}
		got[k] = true
	}
	m.indexes()
}

func (m *vModel) indexes() {
	ctx := context.Background()
	for n, f := range m.idx {
		wantV := map[string]bool{}
		for _, e := range m.items {
			for _, v := range f(e) {
				wantV[v] = true
			}
		}
		vs, err := m.s.IndexValues(ctx, n)
		gotV := map[string]bool{}
		for _, v := range vs {
			gotV[v] = true
		}
		if err != nil || len(gotV) != len(vs) || !reflect.DeepEqual(gotV, wantV) {
			m.fail("C09", "values of index %q: %v (%v), want %v", n, vs, err, wantV)
		}
		x := m.entry()
		ex := map[string]bool{}
		for _, v := range f(x) {
			ex[v] = true
		}
		want := map[string]bool{}
		for k, e := range m.items {
			for _, v := range f(e) {
				if ex[v] {
					want[k] = true
				}
			}
		}
		set, err := m.s.Index(ctx, n, x, nil)
		got := map[string]bool{}
		for _, e := range set.Entries {
			k, _ := m.key(e)
			if got[k] || !vSame(e, m.items[k]) {
				m.fail("C09", "index %q lists %s twice or in another version", n, vStr(e))
			}
			got[k] = true
		}
		if err != nil || !reflect.DeepEqual(got, want) {
			m.fail("C09", "index %q for %v: got %v (%v), want %v", n, f(x), got, err, want)
		}
	}
	if _, err := m.s.IndexValues(ctx, "nosuch"); err == nil {
		m.fail("C09", "values of an unknown index: no error")
	}
	if _, err := m.s.Index(ctx, "nosuch", m.entry(), nil); err == nil {
		m.fail("C09", "an unknown index: no error")
	}
}

func (m *vModel) step() {
	ctx := context.Background()
	rng := m.rng
	e := m.entry()
	k, kerr := m.key(e)
	old, had := m.items[k]
	switch op := rng.Intn(20); {
	case op < 4:
		err := m.s.Add(ctx, e)
		m.log = append(m.log, fmt.Sprintf("Add %q %s: %v", k, vStr(e), err))
		if (err == nil) != (kerr == nil && !had) {
			m.fail("C08", "Add: %v although present=%v, key error %v", err, had, kerr)
		}
		if kerr == nil && !had {
			m.items[k] = e
			m.after("C08", "add "+vStr(e), map[string]bool{k: true})
			return
		}
		m.after("C08", "", nil)
	case op < 7:
		err := m.s.Update(ctx, e)
		m.log = append(m.log, fmt.Sprintf("Update %q %s: %v", k, vStr(e), err))
		if (err == nil) != (kerr == nil) {
			m.fail("C08", "Update: %v, key error %v", err, kerr)
		}
		if kerr != nil {
			m.after("C08", "", nil)
			return
		}
		m.items[k] = e
		ev := "add " + vStr(e)
		if had {
			ev = "chg " + vStr(old) + " -> " + vStr(e)
		}
		m.after("C08", ev, map[string]bool{k: true})
	case op < 10: // conditional
		tag := m.tags[k]
		valid := had && kerr == nil && tag != ""
		switch rng.Intn(4) {
		case 0:
			tag, valid = "%%", false
		case 1:
			for s := range m.seen[k] {
				if s != m.tags[k] || !had {
					tag, valid = s, false
					break
				}
			}
		case 2:
			tag, valid = "AAAA", false
		}
		if tag == "" {
			return
		}
		if !had {
			valid = false
		}
		err := m.s.Update(WithIfMatch(ctx, tag), e)
		m.log = append(m.log, fmt.Sprintf("Update if-match(%v) %q %s: %v", valid, k, vStr(e), err))
		if (err == nil) != valid {
			m.fail("C10", "conditional Update with current ETag %v: %v", valid, err)
		}
		if err == nil {
			m.items[k] = e
			ev := "add " + vStr(e)
			if had {
				ev = "chg " + vStr(old) + " -> " + vStr(e)
			}
			m.after("C10", ev, map[string]bool{k: true})
			return
		}
		m.after("C10", "", nil)
	case op < 13:
		err := m.s.Delete(ctx, e)
		m.log = append(m.log, fmt.Sprintf("Delete %q: %v", k, err))
		if (err == nil) != (kerr == nil) {
			m.fail("C08", "Delete: %v, key error %v", err, kerr)
		}
		ev := ""
		if kerr == nil && had {
			ev = "del " + vStr(old)
			delete(m.items, k)
			delete(m.tags, k)
		}
		m.after("C08", ev, nil)
	case op < 14:
		var es []Entry
		bad := false
		next, wrote := map[string]Entry{}, map[string]bool{}
		for i := 0; i < rng.Intn(5); i++ {
			e := m.entry()
			es = append(es, e)
			k, err := m.key(e)
			bad = bad || err != nil
			next[k], wrote[k] = e, true
		}
		err := m.s.Replace(ctx, es)
		m.log = append(m.log, fmt.Sprintf("Replace with %d: %v", len(es), err))
		if (err != nil) != bad {
			m.fail("C08", "Replace: %v, key error %v", err, bad)
		}
		if !bad {
			m.items, m.tags = next, map[string]string{}
			m.after("C08", "", wrote)
			return
		}
		m.after("C08", "", nil)
	default:
		m.accumulate()
	}
}

func (m *vModel) accumulate() {
	src, r := m.source(), m.record()
	e := Entry{Record: r, TypeMeta: r.GetTypeMeta(), Meta: Metadata{Source: src}}
	k, kerr := m.key(e)
	old, had := m.items[k]
	err := m.s.Accumulate(src, r)
	m.log = append(m.log, fmt.Sprintf("Accumulate %q %s: %v", k, vStr(e), err))
	switch {
	case kerr != nil:
		if err == nil {
			m.fail("C08", "Accumulate: key error ignored")
		}
		m.after("C11", "", nil)
	case !had:
		if err != nil {
			m.fail("C11", "Accumulate of a new record: %s", err)
		}
		m.items[k] = e
		m.after("C11", "add "+vStr(e), map[string]bool{k: true})
		g, _ := m.s.Get(context.Background(), e)
		if !g.Found {
			m.fail("C08", "the accumulated entry is not under its own key %q", k)
		}
	default:
		was, now := vEnc(old.Record), vEnc(r)
		if was == nil || now == nil {
			if err == nil {
				m.fail("C11", "Accumulate of records that cannot be encoded: no error")
			}
			m.after("C11", "", nil)
			return
		}
		same := was[uint32(0)] == now[uint32(0)]
		changed := false
		for a, v := range now {
			if was[a] != v {
				changed = true
				was[a] = v
			}
		}
		if !changed {
			if err != nil {
				m.fail("C11", "Accumulate that changes nothing: %s", err)
			}
			m.after("C11", "", nil)
			return
		}
		merged, derr := encoding.Decode(was)
		if derr != nil {
			if err == nil {
				m.fail("C11", "Accumulate: the merge cannot be decoded, but no error")
			}
			m.after("C11", "", nil)
			return
		}
		if err != nil {
			m.fail("C11", "Accumulate: %s", err)
		}
		prev := vStr(old)
		g, _ := m.s.Get(context.Background(), old)
		if same && !reflect.DeepEqual(vEnc(g.Record), was) {
			m.fail("C11", "merged record has attributes %v, want %v", vEnc(g.Record), was)
		}
		if g.Meta.UpdatedAt.Before(old.Meta.UpdatedAt) {
			m.fail("C11", "update time moved back")
		}
		old.Record = merged.(vanflow.Record)
		m.items[k] = old
		m.after("C11", "chg "+prev+" -> "+vStr(old), map[string]bool{k: true})
	}
}

// selections checks ordering, bounds and paging of the current contents.
func (m *vModel) selections() {
	ctx := context.Background()
	var keys []string
	for k := range m.items {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	pick := func() int {
		return []int{0, 1, 2, 3, len(keys), len(keys) + 1, m.rng.Intn(len(keys) + 2), -1, -1 << 40, 1 << 40}[m.rng.Intn(10)]
	}
	for round := 0; round < 4; round++ {
		sel := Selector{Offset: pick(), Limit: pick(), Ordering: Ordering(m.rng.Intn(2))}
		want := append([]string{}, keys...)
		if sel.Ordering == Descending {
			for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
				want[i], want[j] = want[j], want[i]
			}
		}
		off := sel.Offset
		if off < 0 {
			off = 0
		}
		if off > len(want) {
			off = len(want)
		}
		rest := want[off:]
		list := func(s Selector) (Set, error) { return m.s.List(ctx, &s) }
		if m.rng.Intn(2) == 0 && len(m.items) > 0 {
			for n, f := range m.idx {
				x := m.items[keys[m.rng.Intn(len(keys))]]
				ex := map[string]bool{}
				for _, v := range f(x) {
					ex[v] = true
				}
				var w []string
				for _, k := range want {
					for _, v := range f(m.items[k]) {
						if ex[v] {
							w = append(w, k)
							break
						}
					}
				}
				o := off
				if o > len(w) {
					o = len(w)
				}
				rest = w[o:]
				name := n
				list = func(s Selector) (Set, error) { return m.s.Index(ctx, name, x, &s) }
				break
			}
		}
		first := true
		for page := 0; page <= len(keys)+2; page++ {
			var set Set
			var err error
			func() {
				defer func() {
					if r := recover(); r != nil {
						err = fmt.Errorf("panic: %v", r)
					}
				}()
				set, err = list(sel)
			}()
			n := len(rest)
			if sel.Limit > 0 && sel.Limit < n {
				n = sel.Limit
			}
			var got []string
			for _, e := range set.Entries {
				k, _ := m.key(e)
				got = append(got, k)
			}
			if err != nil || strings.Join(got, ",") != strings.Join(rest[:n], ",") || len(got) != n {
				m.fail("C13", "selector %+v (first page %v): got %q (%v), want %q", sel, first, got, err, rest[:n])
				return
			}
			rest = rest[n:]
			if (set.Continue != "") != (len(rest) > 0) {
				m.fail("C13", "selector %+v: continue token %q, %d entries remain", sel, set.Continue, len(rest))
				return
			}
			if len(rest) == 0 {
				break
			}
			sel.Continue, first = set.Continue, false
		}
	}
	for i := 0; i < 4; i++ {
		// forged tokens give a set or an error
		b := make([]byte, m.rng.Intn(20))
		m.rng.Read(b)
		sel := Selector{Continue: []string{"x", encodeCacheContinue(-5), encodeCacheContinue(1 << 30), "AAAA", "%%%", string(b), encodeCacheContinue(m.rng.Intn(5))}[m.rng.Intn(7)], Limit: pick(), Ordering: Ordering(m.rng.Intn(3))}
		func() {
			defer func() {
				if r := recover(); r != nil {
					m.fail("C13", "selector %+v: panic: %v", sel, r)
				}
			}()
			set, err := m.s.List(ctx, &sel)
			if err == nil && sel.Limit > 0 && len(set.Entries) > sel.Limit {
				m.fail("C13", "selector %+v: %d entries", sel, len(set.Entries))
			}
			if err == nil && (sel.Continue == "x" || sel.Continue == "AAAA" || sel.Continue == "%%%") {
				m.fail("C13", "malformed token %q accepted", sel.Continue)
			}
		}()
	}
}

func vRunModel(t *testing.T, want string) {
	rng := vSeed()
	start := time.Now()
	rounds, steps := 0, 0
	for time.Since(start) < vBudget()*3/5 && !t.Failed() {
		m := newVModel(t, rng, want)
		n := 3 + rng.Intn(40)
		for i := 0; i < n && !m.bad; i++ {
			func() {
				defer func() {
					if r := recover(); r != nil {
						m.fail(want, "panic: %v", r)
						m.bad = true
					}
				}()
				m.step()
			}()
			steps++
		}
		if want == "C13" && !m.bad {
			m.selections()
		}
		rounds++
	}
	fmt.Printf("REPLAY-SUMMARY %d random histories, %d operations, seed %s\n", rounds, steps, os.Getenv("VERIF_SEED"))
}
