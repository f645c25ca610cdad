// Package checks holds the workloads and monitors, one file per property.
package checks

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/perlin-network/noise"

	"verif.test/h/core"
	"verif.test/h/wire"
)

type opt = noise.NodeOption

func opts(o ...opt) []opt { return o }

// mk makes a listening node on a port of the scenario's own range. setup may run more than once, each time on a fresh
// node.
func mk(t *core.T, setup func(n *noise.Node), o ...opt) *noise.Node {
	var err error
	for i := 0; i < 50; i++ {
		var n *noise.Node
		n, err = noise.NewNode(append([]opt{noise.WithNodeBindPort(t.Port())}, o...)...)
		if err != nil {
			break
		}
		if setup != nil {
			setup(n)
		}
		if err = n.Listen(); err == nil {
			t.Cleanup(func() { shut(t, n) })
			return n
		}
		if !strings.Contains(err.Error(), "in use") {
			break
		}
	}
	panic(fmt.Sprint("harness: cannot listen: ", err))
}

// client makes a node that does not listen.
func client(t *core.T, setup func(n *noise.Node), o ...opt) *noise.Node {
	n, err := noise.NewNode(o...)
	if err != nil {
		panic(err)
	}
	if setup != nil {
		setup(n)
	}
	t.Cleanup(func() { shut(t, n) })
	return n
}

// shut closes a node. That Close returns is the subject of C12; elsewhere it is only noted.
func shut(t *core.T, n *noise.Node) {
	if !t.Do(core.Long, func() { n.Close() }) {
		if t.Check == "C12" {
			t.Violation("close-hang", "Close did not return\n%s", core.LibDump(30))
		} else {
			t.Note("Close did not return")
		}
	}
}

// addrOf is the address of a node as one dials it here.
func addrOf(n *noise.Node) string { return n.Addr() }

// loop is an address on the loopback interface for a node's port.
func loop(n *noise.Node) string {
	_, p, _ := net.SplitHostPort(n.Addr())
	return "127.0.0.1:" + p
}

func ctxT(d time.Duration) (context.Context, context.CancelFunc) {
	return context.WithTimeout(context.Background(), d)
}

var bg = context.Background()

// event is a callback of a monitored node.
type event struct {
	seq  int64
	kind string
	c    *noise.Client
	id   noise.ID
	addr string
	err  error
}

var eventSeq atomic.Int64

// mon records the callbacks of a node.
type mon struct {
	mu  sync.Mutex
	ev  []event
	cnt map[string]int
	on  func(e event) // called outside the lock
}

func newMon() *mon { return &mon{cnt: map[string]int{}} }

func (m *mon) add(e event) {
	e.seq = eventSeq.Add(1)
	m.mu.Lock()
	m.ev = append(m.ev, e)
	m.cnt[e.kind]++
	on := m.on
	m.mu.Unlock()
	if on != nil {
		on(e)
	}
}

func (m *mon) count(kind string) int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.cnt[kind]
}

func (m *mon) events() []event {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]event{}, m.ev...)
}

func (m *mon) protocol() noise.Protocol {
	return noise.Protocol{
		OnPeerConnected:    func(c *noise.Client) { m.add(event{kind: "connected", c: c, id: c.ID()}) },
		OnPeerDisconnected: func(c *noise.Client) { m.add(event{kind: "disconnected", c: c, id: c.ID()}) },
		OnPingFailed:       func(a string, err error) { m.add(event{kind: "pingfailed", addr: a, err: err}) },
		OnMessageSent:      func(c *noise.Client) { m.add(event{kind: "sent", c: c}) },
		OnMessageRecv:      func(c *noise.Client) { m.add(event{kind: "recv", c: c}) },
	}
}

// payload makes self-describing content: a tag, two numbers, filler derived from them, and a checksum.
func payload(tag byte, a, b uint32, size int) []byte {
	const min = 1 + 4 + 4 + 4 + 8
	if size < min {
		size = min
	}
	p := make([]byte, size)
	p[0] = tag
	binary.BigEndian.PutUint32(p[1:], a)
	binary.BigEndian.PutUint32(p[5:], b)
	binary.BigEndian.PutUint32(p[9:], uint32(size))
	x := uint32(tag)<<24 ^ a*2654435761 ^ b*40503
	for i := 13; i < size-8; i++ {
		x = x*1664525 + 1013904223
		p[i] = byte(x >> 24)
	}
	h := sha256.Sum256(p[:size-8])
	copy(p[size-8:], h[:8])
	return p
}

type parsed struct {
	tag  byte
	a, b uint32
	size int
}

func parse(p []byte) (parsed, error) {
	if len(p) < 21 {
		return parsed{}, fmt.Errorf("payload of %d bytes", len(p))
	}
	h := sha256.Sum256(p[:len(p)-8])
	if !bytes.Equal(h[:8], p[len(p)-8:]) {
		return parsed{}, errors.New("payload is corrupt")
	}
	r := parsed{p[0], binary.BigEndian.Uint32(p[1:]), binary.BigEndian.Uint32(p[5:]), len(p)}
	if int(binary.BigEndian.Uint32(p[9:])) != len(p) {
		return r, errors.New("payload has another size")
	}
	return r, nil
}

// echoOf is the response to a request.
func echoOf(req []byte) []byte {
	h := sha256.Sum256(append([]byte("re:"), req...))
	return append(h[:], req...)
}

// probe checks that a node serves well-behaved peers: a wire peer connects, and its request is answered. The node must
// answer requests with echoOf.
func probe(addr string, id *wire.Identity, rng *rand.Rand) error {
	c, err := wire.Dial(addr, id, &wire.Options{Timeout: core.Long})
	if err != nil {
		return fmt.Errorf("connecting: %w", err)
	}
	defer c.Close()
	req := make([]byte, 16+rng.Intn(64))
	rng.Read(req)
	req[0] = 'P'
	c.SetDeadline(time.Now().Add(core.Long))
	res, err := c.Call(1+uint64(rng.Intn(1000)), req, nil)
	if err != nil {
		return fmt.Errorf("requesting: %w", err)
	}
	if !bytes.Equal(res, echoOf(req)) {
		return errors.New("wrong response")
	}
	return nil
}

// echo answers requests with echoOf.
func echo(ctx noise.HandlerContext) error {
	if ctx.IsRequest() {
		return ctx.Send(echoOf(ctx.Data()))
	}
	return nil
}

func portOf(addr string) int {
	_, p, _ := net.SplitHostPort(addr)
	n, _ := strconv.Atoi(p)
	return n
}

// closedByPeer reports whether the other side closes nc within core.Long; what it sends meanwhile is returned.
func closedByPeer(t *core.T, nc net.Conn) (data []byte, closed bool) {
	buf := make([]byte, 64<<10)
	for i := 0; time.Duration(i)*100*time.Millisecond < core.Long; i++ {
		nc.SetReadDeadline(time.Now().Add(100 * time.Millisecond))
		n, err := nc.Read(buf)
		data = append(data, buf[:n]...)
		if err != nil {
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				continue
			}
			return data, true
		}
	}
	return data, false
}

// frames splits a byte stream into frames; the rest is what does not make up a whole frame.
func frames(b []byte) (l [][]byte, rest []byte) {
	for len(b) >= 4 {
		n := int(binary.BigEndian.Uint32(b))
		if n > len(b)-4 {
			break
		}
		l = append(l, b[4:4+n])
		b = b[4+n:]
	}
	return l, b
}

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x...(%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// par runs n functions at once and waits for all of them.
func par(n int, f func(i int)) {
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f(i)
		}()
	}
	wg.Wait()
}
