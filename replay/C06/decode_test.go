// pkg: .
package vanflow

import (
	"math/rand"
	"reflect"
	"testing"

	amqp "github.com/Azure/go-amqp"
)

// random messages; the expected reading is computed independently
func TestVerifC06Decode(t *testing.T) {
	rnd := rand.New(rand.NewSource(11))
	strp := func(vs ...string) *string {
		if rnd.Intn(4) == 0 {
			return nil
		}
		s := vs[rnd.Intn(len(vs))]
		return &s
	}
	val := func() any {
		switch rnd.Intn(8) {
		case 0:
			return nil
		case 1:
			return uint32(rnd.Uint32())
		case 2:
			return rnd.Uint64()
		case 3, 4:
			return "s" + string(rune('a'+rnd.Intn(26)))
		case 5:
			return int64(3)
		case 6:
			return []byte("x")
		default:
			return map[any]any{uint32(0): uint32(1)}
		}
	}
	opt := func(p *string) string {
		if p == nil {
			return ""
		}
		return *p
	}
	for n := 0; n < 40000 && !t.Failed(); n++ {
		msg := &amqp.Message{}
		if rnd.Intn(10) > 0 {
			msg.Properties = &amqp.MessageProperties{
				To:      strp("a", "mc/sfe.all", ""),
				Subject: strp("BEACON", "HEARTBEAT", "FLUSH", "RECORD", "beacon", ""),
				ReplyTo: strp("r", "s"),
			}
		}
		if rnd.Intn(5) > 0 {
			msg.ApplicationProperties = map[string]any{}
			for _, k := range []string{"v", "now", "id", "sourceType", "address", "direct"} {
				if rnd.Intn(4) > 0 {
					msg.ApplicationProperties[k] = val()
				}
			}
		}
		switch rnd.Intn(5) {
		case 0:
			msg.Value = val()
		case 1:
			msg.Value = []any{}
		default:
			var vs []any
			for i := rnd.Intn(4); i > 0; i-- {
				switch rnd.Intn(5) {
				case 0:
					vs = append(vs, val())
				case 1:
					vs = append(vs, map[any]any(nil))
				case 2:
					vs = append(vs, map[any]any{uint32(0): val(), uint32(1): "x"})
				default:
					m := map[any]any{uint32(0): uint32(rnd.Intn(16)), uint32(1): "id"}
					if rnd.Intn(2) == 0 {
						m[uint32(9)] = "v"
					}
					vs = append(vs, m)
				}
			}
			msg.Value = vs
		}
		var nilMsg *amqp.Message
		if n == 0 {
			msg = nilMsg
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Errorf("Decode of %+v panics: %v", msg, r)
				}
			}()
			got, err := Decode(msg)
			if msg == nil || msg.Properties == nil || msg.Properties.Subject == nil {
				if err == nil {
					t.Errorf("no subject: no error")
				}
				return
			}
			str := func(k string) string { s, _ := msg.ApplicationProperties[k].(string); return s }
			v32, _ := msg.ApplicationProperties["v"].(uint32)
			now, _ := msg.ApplicationProperties["now"].(uint64)
			p := MessageProps{To: opt(msg.Properties.To), Subject: *msg.Properties.Subject}
			pr := p
			pr.ReplyTo = opt(msg.Properties.ReplyTo)
			var want any
			switch *msg.Properties.Subject {
			case "BEACON":
				want = BeaconMessage{MessageProps: pr, Version: v32, SourceType: str("sourceType"), Address: str("address"), Direct: str("direct"), Identity: str("id")}
			case "HEARTBEAT":
				want = HeartbeatMessage{MessageProps: p, Version: v32, Now: now, Identity: str("id")}
				if h, ok := got.(HeartbeatMessage); ok {
					h.ReplyTo = ""
					got = h
				}
			case "FLUSH":
				want = FlushMessage{MessageProps: pr}
			case "RECORD":
				if err != nil {
					return
				}
				rm, ok := got.(RecordMessage)
				if !ok || rm.To != p.To || rm.Subject != p.Subject {
					t.Errorf("record message read as %+v", got)
				}
				vs, ok := msg.Value.([]any)
				if !ok || len(vs) != len(rm.Records) {
					t.Errorf("body %v read as %v", msg.Value, rm.Records)
				}
				return
			default:
				if err == nil {
					t.Errorf("subject %q gives no error", *msg.Properties.Subject)
				}
				return
			}
			if err != nil || !reflect.DeepEqual(want, got) {
				t.Errorf("%+v read as %+v (%v), want %+v", msg, got, err, want)
			}
		}()
	}
}
