package checks

import (
	"encoding/binary"
	"fmt"
	"net"
	"sync"
	"time"

	"github.com/perlin-network/noise"

	"verif.test/h/core"
	"verif.test/h/wire"
)

// Opcodes of the overlay's and gossip's messages on a node which binds the overlay, then gossip, before all else.
const (
	opPing = iota
	opPong
	opFind
	opFound
	opGossip
)

// encoded prefixes a body with an opcode.
func encoded(op uint16, body []byte) []byte {
	b := make([]byte, 2, 2+len(body))
	binary.BigEndian.PutUint16(b, op)
	return append(b, body...)
}

// found encodes the response to a find-node request.
func found(ids ...[]byte) []byte {
	b := []byte{byte(len(ids))}
	for _, id := range ids {
		b = append(b, id...)
	}
	return encoded(opFound, b)
}

// ref is a reference peer that listens: it handshakes with whoever connects and leaves the messages to on.
type ref struct {
	t    *core.T
	id   *wire.Identity
	ln   net.Listener
	on   func(r *ref, c *wire.Conn, m wire.Msg) bool // whether to go on with this connection
	mu   sync.Mutex
	raw  []net.Conn
	conn []*wire.Conn
	asks []noise.PublicKey // the targets of the find-node requests that have come
	done bool
}

func newRef(t *core.T, on func(r *ref, c *wire.Conn, m wire.Msg) bool) *ref {
	var ln net.Listener
	var err error
	for i := 0; i < 50; i++ {
		if ln, err = net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", t.Port())); err == nil {
			break
		}
	}
	if err != nil {
		panic(fmt.Sprint("harness: cannot listen: ", err))
	}
	r := &ref{t: t, id: wire.NewIdentity(uint16(portOf(ln.Addr().String()))), ln: ln, on: on}
	t.Cleanup(r.close)
	go func() {
		for {
			nc, err := ln.Accept()
			if err != nil {
				return
			}
			r.mu.Lock()
			if r.done {
				nc.Close()
			}
			r.raw = append(r.raw, nc)
			r.mu.Unlock()
			go r.serve(nc)
		}
	}()
	return r
}

func (r *ref) close() {
	r.ln.Close()
	r.mu.Lock()
	defer r.mu.Unlock()
	r.done = true
	for _, c := range r.raw {
		c.Close()
	}
}

func (r *ref) serve(nc net.Conn) {
	c, err := wire.Handshake(nc, r.id, &wire.Options{Timeout: core.Long})
	if err != nil {
		nc.Close()
		return
	}
	nc.SetDeadline(time.Time{})
	r.loop(c)
}

// loop reads messages until the connection ends.
func (r *ref) loop(c *wire.Conn) {
	r.mu.Lock()
	r.conn = append(r.conn, c)
	r.mu.Unlock()
	defer c.Close()
	for {
		m, err := c.Recv()
		if err != nil {
			return
		}
		if len(m.Data) == 34 && binary.BigEndian.Uint16(m.Data) == opFind {
			var k noise.PublicKey
			copy(k[:], m.Data[2:])
			r.mu.Lock()
			r.asks = append(r.asks, k)
			r.mu.Unlock()
		}
		if !r.on(r, c, m) {
			return
		}
	}
}

// dial connects to addr under the peer's identity.
func (r *ref) dial(addr string) (*wire.Conn, error) {
	c, err := wire.Dial(addr, r.id, &wire.Options{Timeout: core.Long})
	if err != nil {
		return nil, err
	}
	c.SetDeadline(time.Time{})
	r.mu.Lock()
	r.raw = append(r.raw, c.Conn)
	r.mu.Unlock()
	go r.loop(c)
	return c, nil
}

func (r *ref) key() noise.PublicKey { return noise.PublicKey(r.id.Pub()) }

// nid is the peer's identity as the library has it.
func (r *ref) nid() noise.ID {
	return noise.NewID(r.key(), net.IPv4(127, 0, 0, 1), r.id.Port)
}

func (r *ref) asked() []noise.PublicKey {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]noise.PublicKey(nil), r.asks...)
}

// pong answers pings; it reports whether m was one.
func pong(c *wire.Conn, m wire.Msg) bool {
	if len(m.Data) == 2 && binary.BigEndian.Uint16(m.Data) == opPing && m.Nonce != 0 {
		c.Send(wire.Msg{Nonce: m.Nonce, Data: encoded(opPong, nil)})
		return true
	}
	return false
}
