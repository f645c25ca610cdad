package checks

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"sync"
	"time"

	"github.com/perlin-network/noise"

	"verif.test/h/core"
	"verif.test/h/wire"
)

func init() {
	core.Register(&core.Check{
		ID:          "C04",
		Rule:        "one record towards a real node per case; distinct by limit, size relative to it, stage and direction; all are non-trivial: acceptance or refusal is observed",
		Assumptions: []string{"the size of a record is that of what is announced in its length field (message + 36 bytes), as in the reference peer's framing"},
		Scenarios: []core.Scenario{
			{Name: "limits", Run: c04limits},
			{Name: "handshake", Run: c04handshake},
			{Name: "zero", Run: func(t *core.T) { c04wide(t, 0) }},
			{Name: "max", Run: func(t *core.T) { c04wide(t, ^uint32(0)) }},
			{Name: "nodes", Run: c04nodes},
		},
	})
}

// lim is a node that records what it is handed.
type lim struct {
	*mon
	mu   sync.Mutex
	got  map[string]int
	errs map[[32]byte]error // of connections that ended, by peer
}

func (s *lim) setup(n *noise.Node) {
	s.mon = newMon()
	s.mu.Lock()
	s.got, s.errs = map[string]int{}, map[[32]byte]error{}
	s.mu.Unlock()
	n.Bind(s.protocol(), noise.Protocol{OnPeerDisconnected: func(c *noise.Client) {
		s.mu.Lock()
		s.errs[c.ID().ID] = c.Error()
		s.mu.Unlock()
	}})
	n.Handle(func(ctx noise.HandlerContext) error {
		s.mu.Lock()
		s.got[string(ctx.Data())]++
		s.mu.Unlock()
		return echoShort(ctx)
	})
}

// echoShort answers with a digest only, so that the answer is small.
func echoShort(ctx noise.HandlerContext) error {
	if ctx.IsRequest() {
		return ctx.Send(echoOf(ctx.Data())[:32])
	}
	return nil
}

func (s *lim) count(b []byte) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.got[string(b)]
}

func (s *lim) ended(k [32]byte) (error, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	err, ok := s.errs[k]
	return err, ok
}

// peerOf gives a reference peer connected with n, in either direction.
func peerOf(t *core.T, n *noise.Node, outbound bool) (*wire.Conn, *noise.Client, error) {
	id := wire.NewIdentity(4200)
	if !outbound {
		c, err := wire.Dial(loop(n), id, &wire.Options{Timeout: core.Long})
		return c, nil, err
	}
	l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", t.Port()))
	if err != nil {
		return nil, nil, err
	}
	defer l.Close()
	type res struct {
		c   *wire.Conn
		err error
	}
	ch := make(chan res, 1)
	go func() {
		nc, err := l.Accept()
		if err != nil {
			ch <- res{nil, err}
			return
		}
		c, err := wire.Handshake(nc, id, &wire.Options{Timeout: core.Long})
		ch <- res{c, err}
	}()
	ctx, cancel := ctxT(core.Long)
	defer cancel()
	cl, err := n.Ping(ctx, l.Addr().String())
	l.Close()
	r := <-ch
	if err == nil {
		err = r.err
	}
	return r.c, cl, err
}

func c04limits(t *core.T) {
	t.Require("records at the limit accepted", 20)
	t.Require("records over the limit refused", 40)
	limits := []int{142, 143, 160, 255, 256, 300, 1000, 4096, 4100, 65535, 65536, 70000, 1 << 20, 4 << 20}
	if t.Thorough {
		limits = append(limits, 145, 512, 1024, 2048, 8192, 100000, 2<<20, 16<<20)
	}
	for round := 0; round < t.N(1, 3); round++ {
		for li, L := range limits {
			t.PerturbRound(round + li)
			s := &lim{}
			o := opts(noise.WithNodeMaxRecvMessageSize(uint32(L)))
			if L == 4<<20 {
				o = nil // the default
			}
			n := mk(t, s.setup, o...)
			by, _, err := peerOf(t, n, false)
			if err != nil {
				t.Violation("refused", "limit %d: a peer was refused: %v", L, err)
				continue
			}
			for _, outbound := range []bool{false, true} {
				dir := map[bool]string{false: "inbound", true: "outbound"}[outbound]
				// Accepted.
				c, _, err := peerOf(t, n, outbound)
				if err != nil {
					t.Violation("refused", "limit %d: a connection was refused (%s): %v", L, dir, err)
					continue
				}
				sizes := []int{wire.Overhead, wire.Overhead + 1, L / 2, L - 2, L - 1, L, L - 1, L}
				for i, size := range sizes {
					if size < wire.Overhead {
						continue
					}
					data := make([]byte, size-wire.Overhead)
					for j := range data {
						data[j] = byte(i + j*7)
					}
					before := s.count(data)
					if i%2 == 0 {
						c.Send(wire.Msg{Data: data})
						if !t.Await(core.Long, func() bool { return s.count(data) == before+1 }) {
							t.Violation("refused", "limit %d: a record of %d bytes was not handed to the handler (%s)", L, size, dir)
							break
						}
					} else {
						c.SetDeadline(time.Now().Add(core.Long))
						res, err := c.Call(uint64(i), data, nil)
						if err != nil || !bytes.Equal(res, echoOf(data)[:32]) {
							t.Violation("refused", "limit %d: a request of %d bytes was not answered (%s): %v", L, size, dir, err)
							break
						}
					}
					if size >= L-1 {
						t.Count("records at the limit accepted", 1)
					}
					t.Case("%d/%s/at/%d", L, dir, size-L)
				}
				c.Close()
				// Refused.
				for k, size := range []uint64{uint64(L) + 1, uint64(L) + 2, uint64(L) + 4, uint64(L) + 36, 2*uint64(L) + 1, 1<<31 - 1, 1 << 31, 1<<32 - 5, 1<<32 - 1, uint64(L) + 1} {
					c, cl, err := peerOf(t, n, outbound)
					if err != nil {
						t.Violation("refused", "limit %d: a connection was refused (%s): %v", L, dir, err)
						continue
					}
					pub := c.Self.Pub()
					first := payload('1', uint32(L), uint32(k), 21)
					if L >= 60 && k%3 == 1 {
						c.Send(wire.Msg{Data: first})
					}
					var body []byte
					if size <= uint64(L)+36 && k%2 == 0 || k == 9 {
						body = make([]byte, int(size)-wire.Overhead)
						copy(body, "toolarge")
						raw := wire.Frame(c.Seal(wire.Encode(wire.Msg{Data: body})))
						go c.Write(raw)
					} else {
						h := make([]byte, 4)
						binary.BigEndian.PutUint32(h, uint32(size))
						c.Write(h) // and not a byte more
					}
					if _, closed := closedByPeer(t, c.Conn); !closed {
						t.Violation("not-refused", "limit %d: a record announced with %d bytes did not close the connection (%s)", L, size, dir)
					}
					c.Close()
					if !t.Await(core.Long, func() bool { _, ok := s.ended(pub); return ok }) {
						t.Violation("not-ended", "limit %d: the connection did not end after a record of %d bytes (%s)", L, size, dir)
						continue
					}
					err, _ = s.ended(pub)
					if !errors.Is(err, noise.ErrMessageTooLarge) {
						t.Violation("error", "limit %d: the connection that announced %d bytes ended with: %v (%s)", L, size, err, dir)
					}
					if cl != nil && !errors.Is(cl.Error(), noise.ErrMessageTooLarge) {
						t.Violation("error", "limit %d: the client of the connection that announced %d bytes has error: %v", L, size, cl.Error())
					}
					if body != nil && s.count(body) > 0 {
						t.Violation("delivered", "limit %d: a record of %d bytes was handed to the handler (%s)", L, size, dir)
					}
					t.Count("records over the limit refused", 1)
					t.Case("%d/%s/over/%d", L, dir, k)
					t.Sample("limit %d, %s: record of %d bytes refused: %v", L, dir, size, err)
				}
			}
			// The bystander has not noticed.
			by.SetDeadline(time.Now().Add(core.Long))
			if res, err := by.Call(7, []byte("b"), nil); err != nil || !bytes.Equal(res, echoOf([]byte("b"))[:32]) {
				t.Violation("bystander", "limit %d: another connection was affected: %v", L, err)
			}
			by.Close()
			t.RunCleanups()
		}
	}
}

// c04handshake: the limit also holds for the handshake, whose frames have 96 and 142 bytes.
func c04handshake(t *core.T) {
	t.Require("handshakes judged", 30)
	for i, L := range []int{1, 4, 36, 95, 96, 97, 128, 141, 142, 143, 1000} {
		t.PerturbRound(i)
		n := mk(t, nil, noise.WithNodeMaxRecvMessageSize(uint32(L)), noise.WithNodeMaxDialAttempts(1))
		for _, outbound := range []bool{false, true} {
			var c *wire.Conn
			var cl *noise.Client
			var err error
			if outbound {
				c, cl, err = peerOf(t, n, true)
			} else {
				c, _, err = peerOf(t, n, false)
				if err == nil && L < 142 { // it may have sent its own records before it read ours
					if _, closed := closedByPeer(t, c.Conn); closed {
						err = errors.New("closed")
					}
				}
			}
			if L >= 142 && err != nil {
				t.Violation("refused", "limit %d: a handshake within the limit failed: %v", L, err)
			}
			if L < 142 && err == nil {
				t.Violation("not-refused", "limit %d: a handshake with a record of 142 bytes was accepted", L)
			}
			if c != nil {
				c.Close()
			}
			if cl != nil {
				cl.Close()
			}
			t.Count("handshakes judged", 1)
			t.Case("handshake/%d/%v", L, outbound)
		}
		// Announced in place of the hello.
		for _, size := range []uint32{uint32(L) + 1, 1 << 31, ^uint32(0)} {
			nc, err := net.Dial("tcp", loop(n))
			if err != nil {
				t.Violation("refused", "limit %d: the node no longer accepts connections: %v", L, err)
				break
			}
			h := make([]byte, 4)
			binary.BigEndian.PutUint32(h, size)
			nc.Write(h)
			if _, closed := closedByPeer(t, nc); !closed {
				t.Violation("not-refused", "limit %d: a first frame announced with %d bytes did not close the connection", L, size)
			}
			nc.Close()
			t.Count("handshakes judged", 1)
			t.Case("handshake/%d/announced/%d", L, size)
		}
		t.RunCleanups()
	}
}

// c04wide: no limit, and the largest one.
func c04wide(t *core.T, limit uint32) {
	t.Require("large records accepted", 10)
	s := &lim{}
	n := mk(t, s.setup, noise.WithNodeMaxRecvMessageSize(limit))
	sizes := []int{36, 37, 100, 4096, 1 << 16, 1 << 20, 4<<20 - 1, 4 << 20, 4<<20 + 1, 4<<20 + 36, 5 << 20, 17 << 20, 100, 36}
	if t.Thorough {
		sizes = append(sizes, 64<<20, 200<<20, 50)
	}
	for _, outbound := range []bool{false, true} {
		c, _, err := peerOf(t, n, outbound)
		if err != nil {
			t.Violation("refused", "limit %d: a connection was refused: %v", limit, err)
			return
		}
		for i, size := range sizes {
			data := make([]byte, size-36)
			for j := 0; j < len(data); j += 97 {
				data[j] = byte(i + j)
			}
			c.SetDeadline(time.Now().Add(3 * core.Long))
			res, err := c.Call(uint64(i+1), data, nil)
			if err != nil || !bytes.Equal(res, echoOf(data)[:32]) {
				t.Violation("refused", "limit %d: a record of %d bytes was not accepted: %v", limit, size, err)
				break
			}
			t.Count("large records accepted", 1)
			t.Case("wide/%d/%v/%d", limit, outbound, size)
		}
		c.Close()
	}
	// Announced, but never sent; also after something was sent.
	t.Stage(fmt.Sprintf("announcing huge records under limit %d", limit))
	var open []net.Conn
	for i, size := range []uint32{1 << 30, 1<<31 - 1, 1 << 31, 1<<31 + 1, ^uint32(0) - 4, ^uint32(0) - 3, ^uint32(0) - 1, ^uint32(0)} {
		for k := 0; k < 4; k++ {
			h := make([]byte, 4, 64)
			binary.BigEndian.PutUint32(h, size)
			if k%2 == 1 {
				h = append(h, make([]byte, 50)...)
			}
			if k < 2 {
				nc, err := net.Dial("tcp", loop(n))
				if err != nil {
					t.Violation("refused", "limit %d: the node no longer accepts connections: %v", limit, err)
					return
				}
				nc.Write(h)
				open = append(open, nc)
			} else {
				c, _, err := peerOf(t, n, i%2 == 0)
				if err != nil {
					t.Violation("refused", "limit %d: a connection was refused: %v", limit, err)
					return
				}
				c.Write(h)
				open = append(open, c.Conn)
			}
			t.Case("wide/%d/announced/%d/%d", limit, size, k)
		}
	}
	time.Sleep(200 * time.Millisecond)
	c, _, err := peerOf(t, n, false)
	if err != nil {
		t.Violation("bystander", "limit %d: after huge announcements a peer is not served: %v", limit, err)
		return
	}
	c.SetDeadline(time.Now().Add(core.Long))
	if res, err := c.Call(1, []byte("q"), nil); err != nil || !bytes.Equal(res, echoOf([]byte("q"))[:32]) {
		t.Violation("bystander", "limit %d: after huge announcements a request is not answered: %v", limit, err)
	}
	c.Close()
	for _, nc := range open {
		nc.Close()
	}
	if !t.Await(core.Long, func() bool { return len(n.Inbound()) == 0 && len(n.Outbound()) == 0 }) {
		t.Violation("not-ended", "limit %d: connections that announced huge records and went away are still there", limit)
	}
}

// c04nodes: between real nodes, requests and responses at and over the limit.
func c04nodes(t *core.T) {
	t.Require("exchanges judged", 60)
	for i, L := range []int{142, 500, 4096, 70000, 1 << 20} {
		t.PerturbRound(i)
		sa, sb := &lim{}, &lim{}
		// a has the limit; b responds with as much as it is asked for.
		a := mk(t, sa.setup, noise.WithNodeMaxRecvMessageSize(uint32(L)))
		b := mk(t, func(n *noise.Node) {
			sb.setup(noopNode(n))
			n.Handle(func(ctx noise.HandlerContext) error {
				if ctx.IsRequest() && len(ctx.Data()) == 4 {
					return ctx.Send(make([]byte, binary.BigEndian.Uint32(ctx.Data())))
				}
				return nil
			})
		})
		for k, size := range []int{0, L / 2, L - 1, L, L + 1, L + 36, 3 * L, L} {
			over := size > L
			n := max(size-wire.Overhead, 0)
			// A response to a.
			q := make([]byte, 4)
			binary.BigEndian.PutUint32(q, uint32(n))
			ctx, cancel := ctxT(core.Long)
			res, err := a.Request(ctx, addrOf(b), q)
			if over && err == nil {
				t.Violation("not-refused", "limit %d: a response of %d bytes was accepted", L, size)
			}
			if !over && (err != nil || len(res) != n) {
				t.Violation("refused", "limit %d: a response of %d bytes was not accepted: %v", L, size, err)
			}
			if over && ctx.Err() != nil {
				t.Violation("not-refused", "limit %d: a response of %d bytes neither arrived nor ended the connection", L, size)
			}
			cancel()
			// A message to a.
			data := payload('n', uint32(L), uint32(k), max(n, 21))
			over = len(data)+wire.Overhead > L
			ctx, cancel = ctxT(core.Long)
			res, err = b.Request(ctx, addrOf(a), data)
			if over && err == nil || sa.count(data) > 0 && over {
				t.Violation("not-refused", "limit %d: a request of %d bytes was accepted", L, size)
			}
			if !over && (err != nil || !bytes.Equal(res, echoOf(data)[:32])) {
				t.Violation("refused", "limit %d: a request of %d bytes was not accepted: %v", L, size, err)
			}
			cancel()
			if over { // gone at both ends before going on
				t.Await(core.Long, func() bool {
					return len(a.Inbound()) == 0 && len(a.Outbound()) == 0 && len(b.Inbound()) == 0 && len(b.Outbound()) == 0
				})
				var k [32]byte = b.ID().ID
				if err, ok := sa.ended(k); !ok || !errors.Is(err, noise.ErrMessageTooLarge) {
					t.Violation("error", "limit %d: the connection with a record of %d bytes ended with: %v", L, size, err)
				}
			}
			t.Count("exchanges judged", 2)
			t.Case("nodes/%d/%d", L, k)
		}
		t.RunCleanups()
	}
}

func noopNode(n *noise.Node) *noise.Node {
	m, _ := noise.NewNode()
	return m
}
