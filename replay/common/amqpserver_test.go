// pkg: session
package session

// A small AMQP 1.0 peer on the loopback interface for the replay harnesses.

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"sync"
	"testing"
	"time"
)

type (
	vSym  string
	vU8   uint8
	vU32  uint32
	vDesc struct {
		code uint64
		v    any
	}
)

func vEnc(b []byte, v any) []byte {
	switch x := v.(type) {
	case nil:
		return append(b, 0x40)
	case bool:
		if x {
			return append(b, 0x41)
		}
		return append(b, 0x42)
	case vU8:
		return append(b, 0x50, byte(x))
	case uint16:
		return binary.BigEndian.AppendUint16(append(b, 0x60), x)
	case vU32:
		return binary.BigEndian.AppendUint32(append(b, 0x70), uint32(x))
	case uint32:
		return binary.BigEndian.AppendUint32(append(b, 0x70), x)
	case uint64:
		return binary.BigEndian.AppendUint64(append(b, 0x80), x)
	case string:
		return append(binary.BigEndian.AppendUint32(append(b, 0xb1), uint32(len(x))), x...)
	case vSym:
		return append(binary.BigEndian.AppendUint32(append(b, 0xb3), uint32(len(x))), x...)
	case []byte:
		return append(binary.BigEndian.AppendUint32(append(b, 0xb0), uint32(len(x))), x...)
	case []any:
		var e []byte
		for _, y := range x {
			e = vEnc(e, y)
		}
		b = binary.BigEndian.AppendUint32(append(b, 0xd0), uint32(len(e)+4))
		return append(binary.BigEndian.AppendUint32(b, uint32(len(x))), e...)
	case vDesc:
		return vEnc(append(b, 0x00, 0x53, byte(x.code)), x.v)
	}
	panic(fmt.Sprintf("encode %T", v))
}

func vDec(b []byte) (any, []byte) {
	c := b[0]
	b = b[1:]
	str := func(n int) []byte { r := b[:n]; b = b[n:]; return r }
	seq := func(count, size int, body []byte) []any {
		var out []any
		for i := 0; i < count; i++ {
			var v any
			v, body = vDec(body)
			out = append(out, v)
		}
		return out
	}
	switch c {
	case 0x00:
		d, r := vDec(b)
		v, r := vDec(r)
		code, _ := d.(uint64)
		return vDesc{code, v}, r
	case 0x40:
		return nil, b
	case 0x41:
		return true, b
	case 0x42:
		return false, b
	case 0x56:
		return b[0] != 0, b[1:]
	case 0x43:
		return uint32(0), b
	case 0x44:
		return uint64(0), b
	case 0x45:
		return []any{}, b
	case 0x50, 0x51, 0x54, 0x55:
		return uint8(b[0]), b[1:]
	case 0x52:
		return uint32(b[0]), b[1:]
	case 0x53:
		return uint64(b[0]), b[1:]
	case 0x60, 0x61:
		return binary.BigEndian.Uint16(b), b[2:]
	case 0x70, 0x71, 0x72:
		return binary.BigEndian.Uint32(b), b[4:]
	case 0x80, 0x81, 0x82, 0x83:
		return binary.BigEndian.Uint64(b), b[8:]
	case 0xa0, 0xa1, 0xa3:
		n := int(b[0])
		b = b[1:]
		return string(str(n)), b
	case 0xb0, 0xb1, 0xb3:
		n := int(binary.BigEndian.Uint32(b))
		b = b[4:]
		return string(str(n)), b
	case 0xc0, 0xc1:
		size, count := int(b[0]), int(b[1])
		return seq(count, size, b[2:]), b[1+size:]
	case 0xd0, 0xd1:
		size, count := int(binary.BigEndian.Uint32(b)), int(binary.BigEndian.Uint32(b[4:]))
		return seq(count, size, b[8:]), b[4+size:]
	case 0xe0:
		return nil, b[1+int(b[0]):]
	case 0xf0:
		return nil, b[4+int(binary.BigEndian.Uint32(b)):]
	}
	panic(fmt.Sprintf("decode %#x", c))
}

type vLink struct {
	conn    int    // connection number, from 1
	address string // node address
	sender  bool   // the client sends
	credit  int64  // first credit issued by a client receiver
	c       *vConn
	handle  uint32
	next    uint32
}

type vOpen struct {
	containerID string
	maxFrame    uint32
	sasl        string // mechanism, empty without a SASL layer
}

type vServer struct {
	l  net.Listener
	mu sync.Mutex
	// behaviour
	refuse      func(conn int) bool                // drop this connection attempt
	attachErr   func(conn int, sender bool) bool   // detach instead of attaching
	onCredit    func(l *vLink)                     // a receiver issued credit
	onTransfer  func(l *vLink, n int) bool         // false: do not settle
	onDispose   func(conn int)                     // client accepted a message
	settleErr   func(conn int) bool                // answer a transfer by a detach with error
	opens       []vOpen
	attaches    []*vLink
	detaches    []string
	conns       []*vConn
	transferred int
}

type vConn struct {
	s     *vServer
	n     int
	c     net.Conn
	wmu   sync.Mutex
	links map[uint32]*vLink
	gone  map[uint32]bool
}

func newVServer(t testing.TB) *vServer {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip("no loopback network: ", err)
	}
	s := &vServer{l: l}
	t.Cleanup(func() { l.Close(); s.kill() })
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			vc := &vConn{s: s, n: len(s.conns) + 1, c: c, links: map[uint32]*vLink{}, gone: map[uint32]bool{}}
			s.conns = append(s.conns, vc)
			refuse := s.refuse != nil && s.refuse(vc.n)
			s.mu.Unlock()
			if refuse {
				c.Close()
				continue
			}
			go vc.serve()
		}
	}()
	return s
}

func (s *vServer) url() string { return "amqp://" + s.l.Addr().String() }

// kill drops every connection.
func (s *vServer) kill() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.conns {
		c.c.Close()
	}
}

func (s *vServer) connCount() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.conns)
}

func (s *vServer) attached() []*vLink {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*vLink{}, s.attaches...)
}

func (c *vConn) write(typ byte, performative vDesc, payload []byte) {
	body := append(vEnc(nil, performative), payload...)
	h := binary.BigEndian.AppendUint32(nil, uint32(len(body)+8))
	h = append(h, 2, typ, 0, 0)
	c.wmu.Lock()
	defer c.wmu.Unlock()
	c.c.Write(append(h, body...))
}

func (c *vConn) frame() (any, []byte, error) {
	var h [8]byte
	if _, err := io.ReadFull(c.c, h[:]); err != nil {
		return nil, nil, err
	}
	n := int(binary.BigEndian.Uint32(h[:])) - 8
	body := make([]byte, n)
	if _, err := io.ReadFull(c.c, body); err != nil {
		return nil, nil, err
	}
	if n == 0 {
		return nil, nil, nil
	}
	v, rest := vDec(body)
	return v, rest, nil
}

func vAt(l []any, i int) any {
	if i < len(l) {
		return l[i]
	}
	return nil
}

func (c *vConn) serve() {
	defer c.c.Close()
	defer func() { recover() }()
	var o vOpen
	var ph [8]byte
	for {
		if _, err := io.ReadFull(c.c, ph[:]); err != nil {
			return
		}
		c.c.Write(ph[:])
		if ph[4] != 3 {
			break
		}
		c.write(1, vDesc{0x40, []any{vSym("EXTERNAL")}}, nil)
		v, _, err := c.frame()
		if err != nil {
			return
		}
		o.sasl, _ = vAt(v.(vDesc).v.([]any), 0).(string)
		c.write(1, vDesc{0x44, []any{vU8(0)}}, nil)
	}
	for {
		v, rest, err := c.frame()
		if err != nil {
			return
		}
		if v == nil {
			continue
		}
		d := v.(vDesc)
		f, _ := d.v.([]any)
		switch d.code {
		case 0x10: // open
			o.containerID, _ = vAt(f, 0).(string)
			o.maxFrame, _ = vAt(f, 2).(uint32)
			c.s.mu.Lock()
			c.s.opens = append(c.s.opens, o)
			c.s.mu.Unlock()
			c.write(0, vDesc{0x10, []any{"server"}}, nil)
		case 0x11: // begin
			c.write(0, vDesc{0x11, []any{uint16(0), vU32(0), vU32(5000), vU32(5000)}}, nil)
		case 0x12: // attach
			name, _ := vAt(f, 0).(string)
			handle, _ := vAt(f, 1).(uint32)
			receiver, _ := vAt(f, 2).(bool)
			node := vAt(f, 6)
			if receiver {
				node = vAt(f, 5)
			}
			var addr string
			if nd, ok := node.(vDesc); ok {
				nf, _ := nd.v.([]any)
				addr, _ = vAt(nf, 0).(string)
			}
			l := &vLink{conn: c.n, address: addr, sender: !receiver, credit: -1, c: c, handle: handle}
			c.s.mu.Lock()
			refuse := c.s.attachErr != nil && c.s.attachErr(c.n, !receiver)
			if !refuse {
				c.s.attaches = append(c.s.attaches, l)
			}
			c.s.mu.Unlock()
			c.links[handle] = l
			var idc any
			if receiver {
				idc = vU32(0)
			}
			src, tgt := any(vDesc{0x28, []any{addr}}), any(vDesc{0x29, []any{addr}})
			if refuse {
				if receiver {
					src = nil
				} else {
					tgt = nil
				}
			}
			c.write(0, vDesc{0x12, []any{name, vU32(handle), !receiver, vU8(2), vU8(0), src, tgt, nil, nil, idc}}, nil)
			if refuse {
				c.detach(handle)
			} else if !receiver {
				c.write(0, vDesc{0x13, []any{vU32(0), vU32(5000), vU32(0), vU32(5000), vU32(handle), vU32(0), vU32(1000)}}, nil)
			}
		case 0x13: // flow
			h, ok := vAt(f, 4).(uint32)
			if !ok {
				continue
			}
			credit, _ := vAt(f, 6).(uint32)
			if l := c.links[h]; l != nil {
				c.s.mu.Lock()
				if l.credit < 0 {
					l.credit = int64(credit)
				}
				cb := c.s.onCredit
				c.s.mu.Unlock()
				if cb != nil {
					cb(l)
				}
			}
		case 0x14: // transfer
			h, _ := vAt(f, 0).(uint32)
			id, _ := vAt(f, 1).(uint32)
			_ = rest
			c.s.mu.Lock()
			c.s.transferred++
			ok := c.s.onTransfer == nil || c.s.onTransfer(c.links[h], c.s.transferred)
			bad := c.s.settleErr != nil && c.s.settleErr(c.n)
			c.s.mu.Unlock()
			if bad {
				c.detach(h)
			} else if ok {
				c.write(0, vDesc{0x15, []any{true, vU32(id), vU32(id), true, vDesc{0x24, []any{}}}}, nil)
			}
		case 0x15: // disposition
			c.s.mu.Lock()
			cb := c.s.onDispose
			c.s.mu.Unlock()
			if cb != nil {
				cb(c.n)
			}
		case 0x16: // detach
			h, _ := vAt(f, 0).(uint32)
			if l := c.links[h]; l != nil {
				c.s.mu.Lock()
				c.s.detaches = append(c.s.detaches, l.address)
				c.s.mu.Unlock()
			}
			c.wmu.Lock()
			mine := c.gone[h]
			delete(c.gone, h)
			c.wmu.Unlock()
			if !mine {
				c.write(0, vDesc{0x16, []any{vU32(h), true}}, nil)
			}
		case 0x17:
			c.write(0, vDesc{0x17, []any{}}, nil)
		case 0x18:
			c.write(0, vDesc{0x18, []any{}}, nil)
			return
		}
	}
}

func (c *vConn) detach(h uint32) {
	c.wmu.Lock()
	c.gone[h] = true
	c.wmu.Unlock()
	c.write(0, vDesc{0x16, []any{vU32(h), true, vDesc{0x1d, []any{vSym("amqp:internal-error"), "test"}}}}, nil)
}

// transfer delivers one message with the given body to a client receiver.
func (l *vLink) transfer(body []byte) {
	id := l.next
	l.next++
	tag := []byte(fmt.Sprint("t", id))
	l.c.write(0, vDesc{0x14, []any{vU32(l.handle), vU32(id), tag, vU32(0), false}}, vEnc(nil, vDesc{0x75, body}))
}

func vWait(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for !cond() {
		if time.Now().After(end) {
			return cond()
		}
		time.Sleep(2 * time.Millisecond)
	}
	return true
}

func vWithin(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

var _ = errors.New
var _ = context.Background
