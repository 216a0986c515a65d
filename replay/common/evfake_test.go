// pkg: eventsource
package eventsource

// A container whose senders and receivers are driven by the replay harnesses.

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"sync"
	"time"

	amqp "github.com/Azure/go-amqp"
	"github.com/c-kruse/vanflow"
	"github.com/c-kruse/vanflow/session"
)

type vfSent struct {
	addr     string
	msg      *amqp.Message
	at       time.Time
	deadline time.Time
	limited  bool
	stopped  bool // its context was done before the attempt
	err      error
}

type vfDelivery struct {
	msg *amqp.Message
	err error
}

type vfContainer struct {
	mu        sync.Mutex
	sent      []vfSent
	send      func(ctx context.Context, addr string, msg *amqp.Message) error
	queues    map[string]chan vfDelivery
	nexts     map[string]int
	accepted  []*amqp.Message
	acceptErr func(*amqp.Message) error
	receivers map[string]int
	closed    map[string]int
	credits   map[string][]int
}

func newVfContainer() *vfContainer {
	return &vfContainer{queues: map[string]chan vfDelivery{}, nexts: map[string]int{}, receivers: map[string]int{}, closed: map[string]int{}, credits: map[string][]int{}}
}

func (c *vfContainer) queue(addr string) chan vfDelivery {
	c.mu.Lock()
	defer c.mu.Unlock()
	q := c.queues[addr]
	if q == nil {
		q = make(chan vfDelivery, 4096)
		c.queues[addr] = q
	}
	return q
}

func (c *vfContainer) sends() []vfSent {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]vfSent{}, c.sent...)
}

func (c *vfContainer) Start(context.Context) {}
func (c *vfContainer) OnSessionError(func(err error)) {}
func (c *vfContainer) NewReceiver(address string, opts session.ReceiverOptions) session.Receiver {
	c.mu.Lock()
	c.receivers[address]++
	c.credits[address] = append(c.credits[address], opts.Credit)
	c.mu.Unlock()
	return &vfReceiver{c, address, c.queue(address)}
}
func (c *vfContainer) NewSender(address string, opts session.SenderOptions) session.Sender {
	return &vfSender{c, address}
}

type vfSender struct {
	c    *vfContainer
	addr string
}

func (s *vfSender) Close(context.Context) error { return nil }
func (s *vfSender) Send(ctx context.Context, msg *amqp.Message) error {
	x := vfSent{addr: s.addr, msg: msg, at: time.Now(), stopped: ctx.Err() != nil}
	x.deadline, x.limited = ctx.Deadline()
	var err error
	if s.c.send != nil {
		err = s.c.send(ctx, s.addr, msg)
	} else {
		err = ctx.Err()
	}
	x.err = err
	s.c.mu.Lock()
	s.c.sent = append(s.c.sent, x)
	s.c.mu.Unlock()
	return err
}

type vfReceiver struct {
	c    *vfContainer
	addr string
	q    chan vfDelivery
}

func (r *vfReceiver) Close(context.Context) error {
	r.c.mu.Lock()
	defer r.c.mu.Unlock()
	r.c.closed[r.addr]++
	return nil
}
func (r *vfReceiver) Accept(ctx context.Context, msg *amqp.Message) error {
	r.c.mu.Lock()
	defer r.c.mu.Unlock()
	r.c.accepted = append(r.c.accepted, msg)
	if r.c.acceptErr != nil {
		return r.c.acceptErr(msg)
	}
	return nil
}
func (r *vfReceiver) Next(ctx context.Context) (*amqp.Message, error) {
	r.c.mu.Lock()
	r.c.nexts[r.addr]++
	r.c.mu.Unlock()
	select {
	case d := <-r.q:
		return d.msg, d.err
	case <-ctx.Done():
		return nil, ctx.Err()
	}
}

// vfWait polls until ok or the time is up.
func vfWait(d time.Duration, ok func() bool) bool {
	end := time.Now().Add(d)
	for {
		if ok() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(time.Millisecond)
	}
}

func vfSeed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n + 1
}

func vfBudget() time.Duration {
	n, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if n <= 0 {
		n = 5
	}
	return time.Duration(n) * time.Second
}

var vfTypes = []reflect.Type{
	reflect.TypeOf(vanflow.SiteRecord{}), reflect.TypeOf(vanflow.RouterRecord{}), reflect.TypeOf(vanflow.LinkRecord{}),
	reflect.TypeOf(vanflow.ControllerRecord{}), reflect.TypeOf(vanflow.ListenerRecord{}), reflect.TypeOf(vanflow.ConnectorRecord{}),
	reflect.TypeOf(vanflow.FlowRecord{}), reflect.TypeOf(vanflow.ProcessRecord{}), reflect.TypeOf(vanflow.HostRecord{}),
	reflect.TypeOf(vanflow.LogRecord{}),
}

// vfFill sets every attribute field to one of a few values or leaves it unset.
func vfFill(rnd *rand.Rand, v reflect.Value, id string) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == reflect.TypeOf(vanflow.BaseRecord{}) {
			b := vanflow.NewBase(id)
			if rnd.Intn(2) == 0 {
				b.StartTime = &vanflow.Time{Time: time.UnixMicro(int64(1 + rnd.Intn(3)))}
			}
			if rnd.Intn(2) == 0 {
				b.EndTime = &vanflow.Time{Time: time.UnixMicro(int64(1 + rnd.Intn(3)))}
			}
			f.Set(reflect.ValueOf(b))
			continue
		}
		if f.Kind() != reflect.Pointer || rnd.Intn(3) == 0 {
			continue
		}
		n := reflect.New(f.Type().Elem())
		switch e := n.Elem(); e.Kind() {
		case reflect.String:
			e.SetString(fmt.Sprint("v", rnd.Intn(3)))
		case reflect.Uint64, reflect.Uint32:
			e.SetUint(uint64(rnd.Intn(3)))
		case reflect.Int64, reflect.Int32:
			e.SetInt(int64(rnd.Intn(3)))
		default:
			continue
		}
		f.Set(n)
	}
}

func vfRecord(rnd *rand.Rand, t reflect.Type, id string) vanflow.Record {
	p := reflect.New(t)
	vfFill(rnd, p.Elem(), id)
	if rnd.Intn(2) == 0 {
		if r, ok := p.Elem().Interface().(vanflow.Record); ok {
			return r
		}
	}
	return p.Interface().(vanflow.Record)
}

// vfBad is a record that no one can encode.
type vfBad struct{ vanflow.BaseRecord }

func (vfBad) GetTypeMeta() vanflow.TypeMeta { return vanflow.TypeMeta{Type: "bad"} }
