// pkg: .
package vanflow

import (
	"fmt"
	"math/rand"
	"reflect"
	"testing"

	"github.com/c-kruse/vanflow/encoding"
)

func TestVerifC07RoundTrip(t *testing.T) {
	rnd := rand.New(rand.NewSource(5))
	s := func(p string) string {
		if rnd.Intn(5) == 0 {
			return ""
		}
		return fmt.Sprint(p, rnd.Intn(1000))
	}
	for n := 0; n < 5000 && !t.Failed(); n++ {
		b := BeaconMessage{MessageProps: MessageProps{To: s("t"), ReplyTo: s("r")}, Version: rnd.Uint32(), SourceType: s("ty"), Address: s("a"), Direct: s("d"), Identity: s("i")}
		got, err := Decode(b.Encode())
		want := b
		want.To, want.Subject, want.ReplyTo = "mc/sfe.all", "BEACON", ""
		if gb, ok := got.(BeaconMessage); ok {
			gb.ReplyTo = ""
			got = gb
		}
		if err != nil || got != any(want) {
			t.Errorf("beacon %+v -> %+v %v", b, got, err)
		}
		h := HeartbeatMessage{MessageProps: MessageProps{To: s("t")}, Version: rnd.Uint32(), Now: rnd.Uint64(), Identity: s("i")}
		got, err = Decode(h.Encode())
		wh := h
		wh.To, wh.Subject = "mc/sfe."+h.Identity, "HEARTBEAT"
		if gh, ok := got.(HeartbeatMessage); ok {
			gh.ReplyTo = ""
			got = gh
		}
		if err != nil || got != any(wh) {
			t.Errorf("heartbeat %+v -> %+v %v", h, got, err)
		}
		f := FlushMessage{MessageProps: MessageProps{To: s("t"), ReplyTo: s("r")}}
		got, err = Decode(f.Encode())
		wf := f
		wf.Subject = "FLUSH"
		if err != nil || got != any(wf) {
			t.Errorf("flush %+v -> %+v %v", f, got, err)
		}
		rm := RecordMessage{MessageProps: MessageProps{To: s("t")}}
		bad := false
		var alone []any
		for i := rnd.Intn(6); i > 0; i-- {
			id := fmt.Sprint("id", i)
			if rnd.Intn(8) == 0 {
				id, bad = "", true
			}
			name := s("n")
			var r Record = SiteRecord{BaseRecord: NewBase(id), Name: &name}
			if rnd.Intn(2) == 0 {
				r = LinkRecord{BaseRecord: NewBase(id), Mode: &name}
			}
			rm.Records = append(rm.Records, r)
			if id != "" {
				at, err := encoding.Encode(r)
				if err != nil {
					t.Fatal(err)
				}
				o, err := encoding.Decode(at)
				if err != nil {
					t.Fatal(err)
				}
				alone = append(alone, o)
			}
		}
		msg, err := rm.Encode()
		if bad {
			if err == nil {
				t.Errorf("message with a record that cannot be encoded is accepted")
			}
			continue
		}
		if err != nil {
			t.Errorf("record message refused: %v", err)
			continue
		}
		got, err = Decode(msg)
		if len(rm.Records) == 0 {
			if err == nil {
				if g := got.(RecordMessage); len(g.Records) != 0 || g.To != rm.To {
					t.Errorf("empty message read as %+v", g)
				}
			}
			continue
		}
		g, ok := got.(RecordMessage)
		if err != nil || !ok || g.To != rm.To || len(g.Records) != len(rm.Records) {
			t.Errorf("record message %+v -> %+v %v", rm, got, err)
			continue
		}
		for i := range g.Records {
			if !reflect.DeepEqual(any(g.Records[i]), alone[i]) {
				t.Errorf("record %d: %+v, alone %+v", i, g.Records[i], alone[i])
			}
		}
	}
}
