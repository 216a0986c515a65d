// pkg: cmd/vanflow-tool
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/eventsource"
	"github.com/c-kruse/vanflow/session"
	"github.com/c-kruse/vanflow/store"
)

// main.go's init parses os.Args: hide the test flags from it.
var verifArgs = func() []string {
	a := os.Args
	os.Args = os.Args[:1]
	return a
}()

func init() { os.Args = verifArgs }

var verifTypes = map[string]reflect.Type{
	"SiteRecord":      reflect.TypeOf(vanflow.SiteRecord{}),
	"LinkRecord":      reflect.TypeOf(vanflow.LinkRecord{}),
	"RouterRecord":    reflect.TypeOf(vanflow.RouterRecord{}),
	"ListenerRecord":  reflect.TypeOf(vanflow.ListenerRecord{}),
	"ConnectorRecord": reflect.TypeOf(vanflow.ConnectorRecord{}),
	"ProcessRecord":   reflect.TypeOf(vanflow.ProcessRecord{}),
	"FlowRecord":      reflect.TypeOf(vanflow.FlowRecord{}),
	"LogRecord":       reflect.TypeOf(vanflow.LogRecord{}),
}

var verifNames = []string{"SiteRecord", "LinkRecord", "RouterRecord", "ListenerRecord", "ConnectorRecord", "ProcessRecord", "FlowRecord", "LogRecord", "HostRecord", "Nonsense"}

func verifCapture(rng *rand.Rand) ReplaceRequest {
	var req ReplaceRequest
	n := rng.Intn(14)
	for i := 0; i < n; i++ {
		ty := verifNames[rng.Intn(len(verifNames))]
		api := "flow/v1"
		if rng.Intn(12) == 0 {
			api = []string{"", "flow/v2"}[rng.Intn(2)]
		}
		body := fmt.Sprintf(`{"ID":"%d"}`, rng.Intn(9))
		switch rng.Intn(10) {
		case 9:
			body = fmt.Sprintf(`{"ID":"z%d","Name":"part","Parent":"part","Counterflow":"part","LogText":"part","Mode":"part","StartTime":"bad"}`, i)
		case 0:
			body = `{"ID":7}`
		case 1:
			body = fmt.Sprintf(`{"ID":"x%d"`, i)
		case 2:
			body = ""
		case 3:
			body = "null"
		case 4:
			body = fmt.Sprintf(`{"ID":"n%d","Name":"a%d","Unheard":[1]}`, i, i)
		case 5:
			body = `[]`
		}
		var raw json.RawMessage
		if body != "" {
			raw = json.RawMessage(body)
		}
		src := store.SourceRef{APIVersion: fmt.Sprint(rng.Intn(2)), Type: []string{"ROUTER", "CONTROLLER"}[rng.Intn(2)], Name: fmt.Sprint("s", rng.Intn(3))}
		var ann map[string]string
		if rng.Intn(2) == 0 {
			ann = map[string]string{"i": fmt.Sprint(i)}
		}
		req.Data = append(req.Data, PartialEntry{
			Meta:     store.Metadata{Source: src, UpdatedAt: time.Unix(int64(rng.Intn(1000)), 0), Annotations: ann},
			TypeMeta: vanflow.TypeMeta{APIVersion: api, Type: ty},
			Record:   raw,
		})
	}
	return req
}

func verifGroups(req ReplaceRequest) map[store.SourceRef][]store.Entry {
	out := map[store.SourceRef][]store.Entry{}
	for _, p := range req.Data {
		ty, ok := verifTypes[p.TypeMeta.Type]
		if !ok || p.TypeMeta.APIVersion != "flow/v1" ||
			p.TypeMeta.Type == "FlowRecord" && !EnableRecordsFlow || p.TypeMeta.Type == "LogRecord" && !EnableRecordsLogs {
			continue
		}
		r := reflect.New(ty).Interface()
		if json.Unmarshal(p.Record, r) != nil {
			continue
		}
		out[p.Meta.Source] = append(out[p.Meta.Source], store.Entry{Meta: p.Meta, TypeMeta: p.TypeMeta, Record: r.(vanflow.Record)})
	}
	return out
}

func verifShow(req ReplaceRequest) string {
	var sb strings.Builder
	for i, p := range req.Data {
		fmt.Fprintf(&sb, "\n  %d %s %s/%s %q", i, p.Meta.Source, p.TypeMeta.APIVersion, p.TypeMeta.Type, p.Record)
	}
	return sb.String()
}

func verifSeconds() time.Duration {
	secs, err := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if err != nil || secs <= 0 {
		secs = 5
	}
	return time.Duration(secs) * time.Second
}

func verifSeed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func TestVerifC28Group(t *testing.T) {
	rng := rand.New(rand.NewSource(verifSeed()))
	f, l := EnableRecordsFlow, EnableRecordsLogs
	defer func() { EnableRecordsFlow, EnableRecordsLogs = f, l }()
	end := time.Now().Add(verifSeconds() / 2)
	for i := 0; i < 300 || time.Now().Before(end); i++ {
		EnableRecordsFlow, EnableRecordsLogs = rng.Intn(3) > 0, rng.Intn(3) > 0
		req := verifCapture(rng)
		want := verifGroups(req)
		got := groupEntriesBySource(req)
		for s, es := range got {
			if len(es) == 0 {
				delete(got, s)
			}
		}
		if !reflect.DeepEqual(got, want) {
			a, _ := json.Marshal(fmt.Sprintf("%+v", verifList(got)))
			b, _ := json.Marshal(fmt.Sprintf("%+v", verifList(want)))
			t.Fatalf("capture (flows %v, logs %v):%s\ngrouped as %s\nwant       %s", EnableRecordsFlow, EnableRecordsLogs, verifShow(req), a, b)
		}
	}
}

func verifList(m map[store.SourceRef][]store.Entry) map[string][]string {
	out := map[string][]string{}
	for s, es := range m {
		for _, e := range es {
			b, _ := json.Marshal(e.Record)
			out[s.String()] = append(out[s.String()], fmt.Sprintf("%s %T %s %v", e.TypeMeta, e.Record, b, e.Meta))
		}
	}
	return out
}

// what a POST of the capture makes the server replay
func TestVerifC28Load(t *testing.T) {
	rng := rand.New(rand.NewSource(verifSeed()))
	for i := 0; i < 150; i++ {
		req := verifCapture(rng)
		for j := range req.Data {
			if req.Data[j].Record == nil {
				req.Data[j].Record = json.RawMessage(`"x"`)
			}
			if !json.Valid(req.Data[j].Record) {
				req.Data[j].Record = json.RawMessage(`[1]`)
			}
		}
		body, err := json.Marshal(req)
		if err != nil {
			t.Fatal(err)
		}
		var seen ReplaceRequest
		if err := json.Unmarshal(body, &seen); err != nil {
			t.Fatal(err)
		}
		want := verifGroups(seen)
		f := &fixtureServer{updates: make(chan map[store.SourceRef]store.Interface, 1)}
		rw := httptest.NewRecorder()
		f.ServeFixture(rw, httptest.NewRequest(http.MethodPost, "/", strings.NewReader(string(body))))
		var got map[store.SourceRef]store.Interface
		select {
		case got = <-f.updates:
		default:
			t.Fatalf("capture%s\nnot loaded: %d %s", verifShow(seen), rw.Code, rw.Body)
		}
		for s := range want {
			if got[s] == nil {
				t.Fatalf("capture%s\nno store for source %s", verifShow(seen), s)
			}
		}
		for s, st := range got {
			all, err := st.List(context.Background(), nil)
			if err != nil {
				t.Fatal(err)
			}
			last := map[string]store.Entry{}
			for _, e := range want[s] {
				last[e.TypeMeta.String()+"/"+e.Record.Identity()] = e
			}
			if len(all.Entries) != len(last) {
				t.Fatalf("capture%s\nsource %s holds %d entries, want %d", verifShow(seen), s, len(all.Entries), len(last))
			}
			for _, e := range all.Entries {
				if w := last[e.TypeMeta.String()+"/"+e.Record.Identity()]; !reflect.DeepEqual(e, w) {
					t.Fatalf("capture%s\nsource %s holds %+v, want %+v", verifShow(seen), s, e, w)
				}
			}
		}
	}
}

// replaying flows some of which have no counterpart
func TestVerifC28Flows(t *testing.T) {
	str := func(s string) *string { return &s }
	num := func(n uint64) *uint64 { return &n }
	for _, tc := range []struct {
		name    string
		records map[string][]*vanflow.FlowRecord
		flows   int
		updates int
	}{
		{"no counterpart", map[string][]*vanflow.FlowRecord{"a": {{BaseRecord: vanflow.BaseRecord{ID: "1"}, Counterflow: str("gone")}}}, 2, 0},
		{"no flows", map[string][]*vanflow.FlowRecord{"a": {}}, 2, 0},
		{"empty counterflow", map[string][]*vanflow.FlowRecord{"a": {{BaseRecord: vanflow.BaseRecord{ID: "1"}, Counterflow: str("")}}}, 2, 0},
		{"negative", map[string][]*vanflow.FlowRecord{"a": {{BaseRecord: vanflow.BaseRecord{ID: "1"}, Counterflow: str("2")}, {BaseRecord: vanflow.BaseRecord{ID: "2"}}}}, -1, 0},
		{"pair and no counterpart", map[string][]*vanflow.FlowRecord{
			"a": {{BaseRecord: vanflow.BaseRecord{ID: "1"}, Counterflow: str("2"), Octets: num(3)}, {BaseRecord: vanflow.BaseRecord{ID: "4"}, Counterflow: str("5")}},
			"b": {{BaseRecord: vanflow.BaseRecord{ID: "2"}, Latency: num(9)}}}, 1, 10},
	} {
		f := &fixtureServer{managers: map[string]*eventsource.Manager{}}
		ctx, cancel := context.WithCancel(context.Background())
		router := session.NewMockRouter()
		for src, records := range tc.records {
			var es []store.Entry
			for _, r := range records {
				es = append(es, store.Entry{Meta: store.Metadata{Source: store.SourceRef{Name: src}}, TypeMeta: r.GetTypeMeta(), Record: r})
			}
			st := newFixtureStore()
			if err := st.Replace(ctx, es); err != nil {
				t.Fatal(err)
			}
			f.managers[src] = eventsource.NewManager(session.NewMockContainer(router), eventsource.ManagerConfig{
				Source: eventsource.Info{ID: src, Address: "mc/sfe." + src, Direct: "sfe." + src}, Stores: []store.Interface{st}, FlushDelay: time.Hour, FlushBatchSize: 10})
			go f.managers[src].Run(ctx)
		}
		rw := httptest.NewRecorder()
		t.Logf("replaying: %s", tc.name)
		f.ServeFlows(rw, httptest.NewRequest(http.MethodPost, "/flows", strings.NewReader(fmt.Sprintf(`{"flows":%d,"duration":0}`, tc.flows))))
		done := 0
		for end := time.Now().Add(5 * time.Second); ; time.Sleep(20 * time.Millisecond) {
			f.lock.Lock()
			done = f.flowsProcessed
			f.lock.Unlock()
			if tc.updates == 0 && end.Before(time.Now().Add(4700*time.Millisecond)) || tc.updates > 0 && done >= tc.flows || time.Now().After(end) {
				break
			}
		}
		if tc.updates > 0 && done != tc.flows {
			t.Fatalf("%s: %d of %d flows replayed", tc.name, done, tc.flows)
		}
		cancel()
	}
}
