package checks

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	mrand "math/rand"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/perlin-network/noise"

	"verif.test/h/core"
	"verif.test/h/wire"
)

func init() {
	core.Register(&core.Check{
		ID:   "C02",
		Rule: "one connection per case; distinct by scenario, who dials, payload sizes and pattern of traffic; non-trivial: at least one identity record and one message were captured in each direction",
		Assumptions: []string{"math/rand's global generator honours Seed in this build (GODEBUG randseednop=0), as it does for programs that declare a Go version before 1.24",
			"uniqueness of nonces is judged over the records of the connections driven (up to some 150,000 on one connection), not over 2^32 of them"},
		Scenarios: []core.Scenario{
			{Name: "relay", Run: c02relay},
			{Name: "reference", Run: c02reference},
			{Name: "volume", Run: c02volume},
			{Name: "processes", Run: c02processes},
			{Name: "ephemeral", Run: c02ephemeral},
		},
	})
	core.Helpers["c02listen"] = c02listen
	core.Helpers["c02dial"] = c02dial
}

// nonces tells whether a nonce was seen before on a connection.
type nonces struct {
	mu   sync.Mutex
	seen map[[12]byte]string
}

func (n *nonces) add(t *core.T, rec []byte, what string) {
	if len(rec) < 12 {
		return
	}
	var k [12]byte
	copy(k[:], rec)
	n.mu.Lock()
	old, dup := n.seen[k]
	n.seen[k] = what
	n.mu.Unlock()
	t.Count("nonces compared", 1)
	if dup {
		t.Violation("nonce-reuse", "nonce %x was used twice on one connection: %s, and %s", k, old, what)
	}
}

// ephs tells whether an ephemeral key was seen before.
type ephs struct {
	mu   sync.Mutex
	seen map[[32]byte]string
}

func (e *ephs) add(t *core.T, key []byte, what string) {
	var k [32]byte
	copy(k[:], key)
	e.mu.Lock()
	old, dup := e.seen[k]
	e.seen[k] = what
	e.mu.Unlock()
	t.Count("ephemeral keys compared", 1)
	if dup {
		t.Violation("ephemeral-reuse", "ephemeral key %x was used twice: %s, and %s", k, old, what)
	}
}

// canary is a payload that is easily recognised: every 8 bytes of it are distinct from anything else.
func canary(i int, size int) []byte {
	b := bytes.Repeat([]byte(fmt.Sprintf("CANARY%02x", i%256)), size/8+1)
	return b[:size]
}

// inspect judges the captured bytes of one relayed connection.
func c02inspect(t *core.T, l *wire.Link, e *ephs, ids [][]byte, what string) (records int) {
	ns := &nonces{seen: map[[12]byte]string{}}
	for dir := 0; dir < 2; dir++ {
		for i, raw := range l.Recorded(dir) {
			body := raw[4:]
			if i == 0 {
				if len(body) != 96 {
					t.Violation("hello", "the first frame of %s (direction %d) has %d bytes", what, dir, len(body))
					continue
				}
				e.add(t, body[:32], fmt.Sprintf("%s, direction %d", what, dir))
				for _, id := range ids {
					if bytes.Contains(body, id) {
						t.Violation("clear-identity", "the first frame of %s (direction %d) contains an identity key in clear", what, dir)
					}
				}
				continue
			}
			records++
			t.Count("records captured", 1)
			if len(body) < 28 {
				t.Violation("not-a-record", "frame %d of %s (direction %d) has %d bytes, which is no AES-GCM record: %s", i, what, dir, len(body), short(body))
				continue
			}
			if bytes.Contains(body, []byte("CANARY")) {
				t.Violation("clear-payload", "frame %d of %s (direction %d) contains the payload in clear", i, what, dir)
			}
			for _, id := range ids {
				if bytes.Contains(body, id) || bytes.Contains(body, id[:16]) {
					t.Violation("clear-identity", "frame %d of %s (direction %d) contains an identity in clear", i, what, dir)
				}
			}
			ns.add(t, body, fmt.Sprintf("%s, direction %d, frame %d", what, dir, i))
		}
	}
	return records
}

// c02relay: two nodes talk through a relay that records every frame.
func c02relay(t *core.T) {
	t.Require("records captured", 1000)
	t.Require("ephemeral keys compared", 10)
	e := &ephs{seen: map[[32]byte]string{}}
	sizes := []int{8, 16, 100, 512, 1000, 1024, 4096, 4097, 20000, 65536, 300000}
	for round := 0; round < t.N(6, 60); round++ {
		t.PerturbRound(round)
		setup := func(n *noise.Node) {
			n.Handle(func(ctx noise.HandlerContext) error {
				if ctx.IsRequest() {
					return ctx.Send(append(canary(200, 16), ctx.Data()...))
				}
				return ctx.Send(canary(201, len(ctx.Data())+8))
			})
		}
		var recvB sync.Map
		a, b := mk(t, func(n *noise.Node) {
			n.Handle(func(ctx noise.HandlerContext) error { recvB.Store(round, true); return nil })
		}), mk(t, setup)
		ka, kb := a.ID().ID, b.ID().ID
		r, err := wire.NewRelay(fmt.Sprintf("127.0.0.1:%d", t.Port()), loop(b))
		if err != nil {
			t.Inconclusive("relay: %v", err)
			return
		}
		t.Cleanup(r.Close)
		r.OnLink = func(l *wire.Link) { l.Record = true }
		r.Start()
		for con := 0; con < 3; con++ {
			ctx, cancel := ctxT(2 * core.Long)
			if round%2 == 1 {
				mrand.Seed(7) // as a program may do at any time
			}
			par(4, func(i int) {
				for j := 0; j < 10; j++ {
					if round%2 == 1 {
						mrand.Seed(int64(j))
					}
					data := canary(i*10+j, sizes[(i*10+j)%len(sizes)])
					var err error
					if j%2 == 0 {
						err = a.Send(ctx, r.Addr(), data)
					} else {
						_, err = a.Request(ctx, r.Addr(), data)
					}
					if err != nil {
						t.Note("relay: %v", err)
					}
				}
			})
			cancel()
			for _, c := range a.Outbound() {
				c.Close()
			}
			t.Await(core.Long, func() bool { return len(b.Inbound()) == 0 && len(a.Outbound()) == 0 })
			t.Case("relay/%d/%d", round%2, con)
		}
		for i, l := range r.Links() {
			n := c02inspect(t, l, e, [][]byte{ka[:], kb[:]}, fmt.Sprintf("connection %d of round %d", i, round))
			t.Sample("connection %d of round %d: %d records, first %s", i, round, n, short(l.Recorded(0)[1]))
		}
		t.RunCleanups()
	}
}

// c02peer reads everything a node sends after the handshake, checks each record, and answers requests.
func c02peer(t *core.T, c *wire.Conn, ns *nonces, what string, answer bool) (records int) {
	ns.add(t, c.Peer.RawID, what+", identity record")
	for {
		raw, err := wire.ReadFrame(c)
		if err != nil {
			return records
		}
		b, err := c.Open(raw)
		if err != nil || len(b) < 8 {
			t.Violation("not-a-record", "%s: a frame does not decrypt under the connection's key: %s", what, short(raw))
			continue
		}
		if bytes.Contains(raw, []byte("CANARY")) {
			t.Violation("clear-payload", "%s: a record contains the payload in clear", what)
		}
		ns.add(t, raw, fmt.Sprintf("%s, record %d", what, records))
		records++
		t.Count("records decrypted", 1)
		if nonce := binary.BigEndian.Uint64(b); answer && nonce > 0 {
			rec := c.Seal(wire.Encode(wire.Msg{Nonce: nonce, Data: canary(3, 24)}))
			ns.add(t, rec, what+", reference")
			c.WriteRecord(rec)
		}
	}
}

// c02reference: the reference peer holds the key of the connection, and so checks that each frame is a record.
func c02reference(t *core.T) {
	t.Require("records decrypted", 350)
	e := &ephs{seen: map[[32]byte]string{}}
	sizes := []int{0, 1, 7, 8, 11, 12, 13, 20, 100, 1000, 1003, 1004, 1005, 1016, 1024, 1025, 4000, 4096, 70000, 1 << 20}
	for round := 0; round < t.N(10, 100); round++ {
		t.PerturbRound(round)
		id := wire.NewIdentity(4100)
		ns := &nonces{seen: map[[12]byte]string{}}
		n := mk(t, func(n *noise.Node) {
			n.Handle(func(ctx noise.HandlerContext) error {
				mrand.Seed(3)
				return ctx.Send(append(canary(1, 32), ctx.Data()...))
			})
		})
		what := fmt.Sprintf("round %d", round)
		if round%2 == 0 { // outbound
			l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", t.Port()))
			if err != nil {
				t.Inconclusive("%v", err)
				return
			}
			done := make(chan int)
			go func() {
				defer close(done)
				nc, err := l.Accept()
				if err != nil {
					return
				}
				c, err := wire.Handshake(nc, id, &wire.Options{Timeout: core.Long})
				if err != nil {
					t.Inconclusive("handshake: %v", err)
					nc.Close()
					return
				}
				e.add(t, c.Peer.Eph[:], what)
				c02peer(t, c, ns, what, true)
				nc.Close()
			}()
			ctx, cancel := ctxT(2 * core.Long)
			par(3, func(i int) {
				for j, s := range sizes {
					mrand.Seed(1)
					if (i+j)%2 == 0 {
						n.Send(ctx, l.Addr().String(), canary(i, s))
					} else {
						n.Request(ctx, l.Addr().String(), canary(i, s))
					}
				}
			})
			n.Request(ctx, l.Addr().String(), canary(9, 9)) // everything before it has been written then
			cancel()
			if round%4 == 0 {
				shut(t, n)
			} else {
				for _, c := range n.Outbound() {
					c.Close()
				}
			}
			<-done
			l.Close()
			t.Case("out/%d", round%4)
		} else {
			c, err := wire.Dial(loop(n), id, &wire.Options{Timeout: core.Long, ReadPeer: round%4 == 1})
			if err != nil {
				t.Inconclusive("handshake: %v", err)
				continue
			}
			e.add(t, c.Peer.Eph[:], what)
			go func() {
				for j, s := range sizes {
					rec := c.Seal(wire.Encode(wire.Msg{Nonce: uint64(j % 3), Data: canary(j, s)}))
					ns.add(t, rec, what+", reference")
					c.WriteRecord(rec)
				}
				time.Sleep(100 * time.Millisecond)
				for _, c := range n.Inbound() {
					c.Close()
				}
			}()
			c.SetReadDeadline(time.Now().Add(2 * core.Long))
			c02peer(t, c, ns, what, false)
			c.Close()
			t.Case("in/%d", round%4)
		}
		t.RunCleanups()
	}
}

// c02volume: many records on one connection, more than 16 bits can count.
func c02volume(t *core.T) {
	total := t.N(75000, 600000)
	t.Require("records decrypted", 2*total-1000)
	id := wire.NewIdentity(4100)
	ns := &nonces{seen: map[[12]byte]string{}}
	n := mk(t, func(n *noise.Node) {
		n.Handle(func(ctx noise.HandlerContext) error { return ctx.Send(ctx.Data()) })
	})
	c, err := wire.Dial(loop(n), id, &wire.Options{Timeout: core.Long})
	if err != nil {
		t.Inconclusive("handshake: %v", err)
		return
	}
	defer c.Close()
	// The node's echoes fill the connection; what the reference peer sends has nonces of its own.
	go func() {
		for i := 0; i < total; i++ {
			if c.Send(wire.Msg{Data: []byte("x")}) != nil {
				return
			}
		}
		// More, in bursts out of the node's own queue.
		for i := 0; i < total; i++ {
			if c.Send(wire.Msg{Nonce: uint64(i + 1), Data: []byte("y")}) != nil {
				return
			}
		}
	}()
	got := 0
	ns.add(t, c.Peer.RawID, "identity record")
	for got < 2*total {
		c.SetReadDeadline(time.Now().Add(2 * core.Long))
		raw, err := wire.ReadFrame(c)
		if err != nil {
			t.Inconclusive("after %d records: %v", got, err)
			return
		}
		if _, err := c.Open(raw); err != nil {
			t.Violation("not-a-record", "record %d does not decrypt", got)
		}
		ns.add(t, raw, "record "+strconv.Itoa(got))
		t.Count("records decrypted", 1)
		got++
	}
	t.Case("volume/%d", got)
}

// c02processes: two processes that do exactly the same talk to each other. What is only unique within a process, or
// comes from an identically seeded generator, shows up here.
func c02processes(t *core.T) {
	t.Require("records captured", 100)
	e := &ephs{seen: map[[32]byte]string{}}
	for round := 0; round < t.N(4, 30); round++ {
		ps, err := t.Helper("c02listen", strconv.Itoa(round%2))
		if err != nil {
			t.Inconclusive("helper: %v", err)
			return
		}
		addr, ok := ps.Line(t, "ADDR ")
		if !ok {
			t.Inconclusive("the listening process did not start")
			return
		}
		r, err := wire.NewRelay(fmt.Sprintf("127.0.0.1:%d", t.Port()), addr)
		if err != nil {
			t.Inconclusive("relay: %v", err)
			return
		}
		r.OnLink = func(l *wire.Link) { l.Record = true }
		r.Start()
		pd, err := t.Helper("c02dial", strconv.Itoa(round%2), r.Addr())
		if err != nil {
			t.Inconclusive("helper: %v", err)
			return
		}
		if _, ok := pd.Line(t, "DONE"); !ok {
			t.Inconclusive("the dialing process did not finish")
			return
		}
		time.Sleep(20 * time.Millisecond)
		for i, l := range r.Links() {
			c02inspect(t, l, e, nil, fmt.Sprintf("connection %d of pair %d", i, round))
		}
		r.Close()
		t.Case("processes/%d", round)
		t.RunCleanups()
	}
}

func c02node(seeded string) *noise.Node {
	if seeded == "1" {
		mrand.Seed(42)
	}
	n, err := noise.NewNode()
	if err != nil {
		panic(err)
	}
	n.Handle(func(ctx noise.HandlerContext) error { return ctx.Send(canary(5, 64)) })
	if err := n.Listen(); err != nil {
		panic(err)
	}
	return n
}

func c02listen(args []string) {
	n := c02node(args[0])
	fmt.Println("ADDR " + loop(n))
	bufio.NewReader(os.Stdin).ReadString('\n')
}

func c02dial(args []string) {
	n := c02node(args[0])
	for con := 0; con < 3; con++ {
		ctx, cancel := ctxT(core.Long)
		for i := 0; i < 20; i++ {
			if i%2 == 0 {
				n.Request(ctx, args[1], canary(i, 40))
			} else {
				n.Send(ctx, args[1], canary(i, 40))
			}
		}
		cancel()
		for _, c := range n.Outbound() {
			c.Close()
			c.WaitUntilClosed()
		}
	}
	fmt.Println("DONE " + strings.Repeat(".", 3))
	bufio.NewReader(os.Stdin).ReadString('\n')
}

// c02ephemeral: many connections, from and to the same nodes.
func c02ephemeral(t *core.T) {
	total := t.N(250, 3000)
	t.Require("ephemeral keys compared", 2*total-20)
	e := &ephs{seen: map[[32]byte]string{}}
	n := mk(t, nil)
	id := wire.NewIdentity(4100)
	l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", t.Port()))
	if err != nil {
		t.Inconclusive("%v", err)
		return
	}
	defer l.Close()
	go func() {
		for i := 0; ; i++ {
			nc, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer nc.Close()
				o := &wire.Options{Timeout: core.Long}
				if i%5 == 4 {
					o.Stop = 2
				}
				if c, err := wire.Handshake(nc, id, o); err == nil || err == wire.ErrStopped {
					e.add(t, c.Peer.Eph[:], fmt.Sprintf("outbound connection %d", i))
					if i%2 == 0 && err == nil {
						closedByPeer(t, nc)
					}
				}
			}()
		}
	}()
	for i := 0; i < total; i++ {
		if i%50 == 0 {
			t.PerturbRound(i / 50)
		}
		mrand.Seed(5)
		if c, err := wire.Dial(loop(n), id, &wire.Options{Timeout: core.Long}); err == nil {
			e.add(t, c.Peer.Eph[:], fmt.Sprintf("inbound connection %d", i))
			c.Close()
		}
		mrand.Seed(5)
		ctx, cancel := ctxT(core.Long)
		cl, err := n.Ping(ctx, l.Addr().String())
		cancel()
		if err == nil {
			cl.Close()
			cl.WaitUntilClosed()
		}
		t.Case("ephemeral/%d", i%10)
	}
}
