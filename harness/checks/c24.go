package checks

import (
	"context"
	"fmt"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/kademlia"

	"verif.test/h/core"
)

func init() {
	core.Register(&core.Check{
		ID:          "C24",
		Rule:        "one case per meeting of a peer with a table (with room, or full with a tail in some condition), and per node of a run in which peers come and go; distinct by scenario, condition of the tail, bucket and direction; non-trivial: the table changes or a tail is pinged",
		Assumptions: []string{"a live peer on this machine answers a ping within 3 s (15 s where it is to be kept)"},
		Scenarios: []core.Scenario{
			{Name: "room", Run: c24room},
			{Name: "kept", Run: c24kept},
			{Name: "evicted", Run: c24evicted, Timeout: 180 * time.Second},
			{Name: "dropped", Run: c24dropped},
			{Name: "moved", Run: c24moved},
			{Name: "several", Run: c24several},
			{Name: "crowded", Run: c24crowded},
			{Name: "replay", Run: c24replay, Timeout: 180 * time.Second},
		},
	})
}

// keyIn generates a key pair in bucket p of owner's table (p should be small).
func keyIn(owner noise.PublicKey, p int) (noise.PublicKey, noise.PrivateKey) {
	for {
		pub, priv, err := noise.GenerateKeys(nil)
		if err != nil {
			panic(err)
		}
		if lcp(owner, pub) == p {
			return pub, priv
		}
	}
}

type tableEvent struct {
	kind string // admitted, evicted or activity
	id   noise.ID
}

// tableLog records the events of an overlay.
type tableLog struct {
	mu sync.Mutex
	ev []tableEvent
	on func(e tableEvent)
}

func (l *tableLog) add(kind string, id noise.ID) {
	l.mu.Lock()
	l.ev = append(l.ev, tableEvent{kind, id})
	on := l.on
	l.mu.Unlock()
	if on != nil {
		on(tableEvent{kind, id})
	}
}

func (l *tableLog) events() kademlia.Events {
	return kademlia.Events{
		OnPeerAdmitted: func(id noise.ID) { l.add("admitted", id) },
		OnPeerEvicted:  func(id noise.ID) { l.add("evicted", id) },
		OnPeerActivity: func(id noise.ID) { l.add("activity", id) },
	}
}

func (l *tableLog) list() []tableEvent {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]tableEvent(nil), l.ev...)
}

// of counts the events of a kind about a key.
func (l *tableLog) of(kind string, k noise.PublicKey) int {
	n := 0
	for _, e := range l.list() {
		if e.kind == kind && e.id.ID == k {
			n++
		}
	}
	return n
}

func (l *tableLog) kinds(kind string) int {
	n := 0
	for _, e := range l.list() {
		if e.kind == kind {
			n++
		}
	}
	return n
}

func (l *tableLog) String() string {
	var s []string
	for _, e := range l.list() {
		if e.kind != "activity" {
			s = append(s, fmt.Sprintf("%s %x", e.kind, e.id.ID[:4]))
		}
	}
	if len(s) > 40 {
		s = s[len(s)-40:]
	}
	return strings.Join(s, ", ")
}

// replay applies the events, in the order they were reported, to a set that starts with what the table held before.
func (l *tableLog) replay(start []noise.ID) (map[noise.PublicKey]bool, string) {
	set := map[noise.PublicKey]bool{}
	for _, id := range start {
		set[id.ID] = true
	}
	for i, e := range l.list() {
		switch e.kind {
		case "admitted":
			if set[e.id.ID] {
				return set, fmt.Sprintf("event %d: %x is admitted, but is in the table already", i, e.id.ID[:4])
			}
			set[e.id.ID] = true
		case "evicted":
			if !set[e.id.ID] {
				return set, fmt.Sprintf("event %d: %x is evicted, but is not in the table", i, e.id.ID[:4])
			}
			delete(set, e.id.ID)
		}
	}
	return set, ""
}

// member is a node with an overlay whose events are recorded.
type member struct {
	n *noise.Node
	o *kademlia.Protocol
	l *tableLog
}

func newMember(t *core.T, pingTimeout time.Duration, setup func(n *noise.Node), o ...opt) *member {
	return newMemberWith(t, pingTimeout, func(_ *member, n *noise.Node) {
		if setup != nil {
			setup(n)
		}
	}, o...)
}

func newMemberWith(t *core.T, pingTimeout time.Duration, setup func(m *member, n *noise.Node), o ...opt) *member {
	m := &member{}
	m.n = mk(t, func(n *noise.Node) {
		m.l = &tableLog{}
		m.o = kademlia.New(kademlia.WithProtocolPingTimeout(pingTimeout), kademlia.WithProtocolEvents(m.l.events()))
		n.Bind(m.o.Protocol())
		n.Handle(echoUnknown)
		setup(m, n)
	}, append(opts(noise.WithNodeNumWorkers(2)), o...)...)
	return m
}

// echoUnknown answers requests that are no registered messages.
func echoUnknown(ctx noise.HandlerContext) error {
	if _, err := ctx.DecodeMessage(); err != nil {
		return echo(ctx)
	}
	return nil
}

func (m *member) key() noise.PublicKey { return m.n.ID().ID }

func (m *member) has(k noise.PublicKey) bool { return m.o.Table().Recorded(k) }

// fill plants made-up peers at unreachable addresses in a bucket until it is full.
func (m *member) fill(p int) (planted []noise.ID) {
	for i := 0; ; i++ {
		k, _ := keyIn(m.key(), p)
		id := noise.NewID(k, net.IPv4(127, 0, 0, 1), uint16(1+i)) // nobody listens there
		if _, err := m.o.Table().Update(id); err != nil {
			return planted
		}
		planted = append(planted, id)
	}
}

// meet connects two nodes, one way or the other.
func meet(t *core.T, a, b *noise.Node) error {
	ctx, cancel := ctxT(core.Long)
	defer cancel()
	_, err := a.Ping(ctx, b.Addr())
	return err
}

// c24room: peers that meet a node whose buckets have room are recorded, the one heard of most recently in front.
func c24room(t *core.T) {
	t.Require("recorded", 20)
	t.Require("moved to the head", 10)
	for round := 0; round < t.N(3, 25); round++ {
		t.PerturbRound(round)
		rng := t.RNG("room", round)
		x := newMember(t, 3*time.Second, nil)
		var peers []*member
		for i := 0; i < 10; i++ {
			_, priv := keyIn(x.key(), rng.Intn(2))
			var o []opt
			var p *member
			if i%3 == 2 { // a peer without an overlay is recorded just the same
				p = &member{n: mk(t, func(n *noise.Node) { n.Handle(echo) }, append(o, noise.WithNodePrivateKey(priv), noise.WithNodeNumWorkers(1))...)}
			} else {
				p = newMember(t, 3*time.Second, nil, noise.WithNodePrivateKey(priv))
			}
			peers = append(peers, p)
			in := rng.Intn(2) == 0
			var err error
			if in {
				err = meet(t, p.n, x.n)
			} else {
				err = meet(t, x.n, p.n)
			}
			if err != nil {
				t.Violation("connect", "two live nodes cannot connect: %v", err)
				return
			}
			if !t.Await(core.Long, func() bool {
				b := x.o.Table().Bucket(p.key())
				return len(b) > 0 && b[0].ID == p.key()
			}) {
				t.Violation("not-recorded", "a peer that connected is not at the head of its bucket, which is %v", keyNames(x.o.Table().Bucket(p.key())))
				return
			}
			if got := x.o.Table().Bucket(p.key())[0]; got.Address != p.n.ID().Address || got.Port != p.n.ID().Port {
				t.Violation("recorded-otherwise", "a peer at %s is recorded at %s", p.n.ID().Address, got.Address)
			}
			if !t.Await(core.Long, func() bool { return x.l.of("admitted", p.key()) == 1 }) {
				t.Violation("not-reported", "a peer that was recorded was reported %d times as admitted", x.l.of("admitted", p.key()))
			}
			t.Count("recorded", 1)
			t.Case("room/%v/%d/%d", in, lcp(x.key(), p.key()), i)
		}
		for i := 0; i < 12; i++ {
			p := peers[rng.Intn(len(peers))]
			how := rng.Intn(4)
			ctx, cancel := ctxT(core.Long)
			var err error
			switch how {
			case 0:
				err = x.n.Send(ctx, p.n.Addr(), []byte("from x"))
			case 1:
				err = p.n.Send(ctx, x.n.Addr(), []byte("to x"))
			case 2:
				_, err = x.n.Request(ctx, p.n.Addr(), []byte("a request of x"))
			case 3:
				_, err = p.n.Request(ctx, x.n.Addr(), []byte("a request to x"))
			}
			cancel()
			if err != nil {
				t.Violation("exchange", "two live nodes cannot exchange messages: %v", err)
				return
			}
			if !t.Await(core.Long, func() bool { return x.o.Table().Bucket(p.key())[0].ID == p.key() }) {
				t.Violation("not-moved", "a peer that exchanged data (%d) is not at the head of its bucket, which is %v", how, keyNames(x.o.Table().Bucket(p.key())))
				return
			}
			t.Count("moved to the head", 1)
			t.Case("move/%d", how)
			time.Sleep(20 * time.Millisecond) // the callbacks of this exchange should not count for the next
		}
		for _, p := range peers {
			if n := x.l.of("admitted", p.key()); n != 1 {
				t.Violation("reported-twice", "a peer that was recorded once was reported %d times as admitted", n)
			}
			if !x.has(p.key()) {
				t.Violation("lost", "a live peer is not recorded any more")
			}
		}
		if n := x.l.kinds("evicted"); n != 0 {
			t.Violation("evicted", "%d peers were evicted, while there was room", n)
		}
		t.RunCleanups()
	}
}

// newcomer meets x, in either direction.
func newcomer(t *core.T, x *member, p int, inbound bool) *member {
	_, priv := keyIn(x.key(), p)
	c := newMember(t, 3*time.Second, nil, noise.WithNodePrivateKey(priv))
	var err error
	if inbound {
		err = meet(t, c.n, x.n)
	} else {
		err = meet(t, x.n, c.n)
	}
	if err != nil {
		t.Violation("connect", "two live nodes cannot connect: %v", err)
	}
	return c
}

// c24kept: a live tail of a full bucket is kept, and the newcomer is not recorded.
func c24kept(t *core.T) {
	t.Require("kept", 8)
	modes := []string{"idle", "connected", "inbound", "restarted", "slow", "exchange"}
	for round := 0; round < t.N(2, 12); round++ {
		t.PerturbRound(round)
		rng := t.RNG("kept", round)
		for _, mode := range modes {
			p := rng.Intn(3)
			x := newMember(t, 15*time.Second, nil)
			pub, priv := keyIn(x.key(), p)
			var pings atomic.Int64
			count := func(n *noise.Node) {
				n.Handle(func(ctx noise.HandlerContext) error {
					if m, err := ctx.DecodeMessage(); err == nil {
						if _, ok := m.(kademlia.Ping); ok && ctx.IsRequest() {
							pings.Add(1)
							if mode == "slow" {
								time.Sleep(2 * time.Second)
							}
						}
					}
					return nil
				})
			}
			old := newMember(t, 3*time.Second, count, noise.WithNodePrivateKey(priv), noise.WithNodeBindPort(t.Port()))
			var err error
			switch mode {
			case "connected", "slow":
				err = meet(t, x.n, old.n)
			default:
				err = meet(t, old.n, x.n)
			}
			if err != nil || !t.Await(core.Long, func() bool { return x.has(pub) }) {
				t.Violation("not-recorded", "a peer is not recorded: %v", err)
				return
			}
			planted := x.fill(p)
			switch mode {
			case "idle", "restarted": // there is no connection with it any more
				port := portOf(old.n.Addr())
				shut(t, old.n)
				t.Await(core.Long, func() bool { return len(x.n.Inbound())+len(x.n.Outbound()) == 0 })
				old = newMember(t, 3*time.Second, count, noise.WithNodePrivateKey(priv), noise.WithNodeBindPort(uint16(port)))
				if portOf(old.n.Addr()) != port {
					t.Inconclusive("port %d is taken", port)
					continue
				}
			}
			if got := x.o.Table().Last(pub); got.ID != pub {
				if !t.Await(core.Long, func() bool { return false }) {
					t.Violation("tail", "the tail is %x, should be %x: the bucket is %v", got.ID[:4], pub[:4], keyNames(x.o.Table().Bucket(pub)))
					return
				}
			}
			in := rng.Intn(2) == 0
			c := newcomer(t, x, p, in)
			// The tail is asked, and its answer moves it to the head.
			if !t.Await(core.Long, func() bool { return x.o.Table().Bucket(pub)[0].ID == pub || x.has(c.key()) || !x.has(pub) }) {
				t.Violation("not-asked", "the tail of the full bucket has not been moved (%d pings reached it) after a newcomer has come (%s)\n%s", pings.Load(), mode, core.LibDump(10))
				return
			}
			time.Sleep(50 * time.Millisecond)
			if !x.has(pub) {
				t.Violation("live-evicted", "a live tail (%s) was evicted in favour of a newcomer; events: %v", mode, x.l)
			}
			if x.has(c.key()) || x.l.of("admitted", c.key()) > 0 {
				t.Violation("newcomer-recorded", "a newcomer is recorded although its bucket was full of peers of which the tail is live (%s); events: %v", mode, x.l)
			}
			if pings.Load() == 0 && !t.Await(time.Second, func() bool { return pings.Load() > 0 }) {
				t.Violation("not-pinged", "the live tail (%s) was not pinged", mode)
			}
			for _, id := range planted {
				if !x.has(id.ID) {
					t.Violation("other-evicted", "a peer other than the tail was evicted (%s)", mode)
				}
			}
			if n := len(x.o.Table().Bucket(pub)); n != bucketSize {
				t.Violation("size", "a full bucket has %d entries after a newcomer has come", n)
			}
			t.Count("kept", 1)
			t.Case("kept/%s/%d/%v", mode, p, in)
			t.RunCleanups()
		}
	}
}

// c24victims are the conditions in which the tail of a bucket does not answer a ping under its identity.
var c24victims = []string{"closed", "impostor", "impostor-near", "silent", "mute", "wrong", "garbage", "error", "slow", "resets", "closes"}

// c24spoil makes a peer that is recorded with x and puts it into a condition in which it should be evicted. go runs
// what has to happen once the peer is recorded.
func c24spoil(t *core.T, x *member, p int, mode string) (victim noise.PublicKey, spoil func()) {
	pub, priv := keyIn(x.key(), p)
	switch mode {
	case "mute", "wrong", "garbage", "error", "slow":
		n := mk(t, func(n *noise.Node) {
			n.RegisterMessage(kademlia.Ping{}, kademlia.UnmarshalPing)
			n.RegisterMessage(kademlia.Pong{}, kademlia.UnmarshalPong)
			n.RegisterMessage(kademlia.FindNodeRequest{}, kademlia.UnmarshalFindNodeRequest)
			n.RegisterMessage(kademlia.FindNodeResponse{}, kademlia.UnmarshalFindNodeResponse)
			n.Handle(func(ctx noise.HandlerContext) error {
				if !ctx.IsRequest() {
					return nil
				}
				switch mode {
				case "wrong":
					return ctx.SendMessage(kademlia.FindNodeResponse{})
				case "garbage":
					return ctx.Send([]byte{0xff})
				case "error":
					return fmt.Errorf("no")
				case "slow":
					time.Sleep(5 * time.Second)
					return ctx.SendMessage(kademlia.Pong{})
				}
				return nil
			})
		}, noise.WithNodePrivateKey(priv))
		if err := meet(t, n, x.n); err != nil {
			t.Violation("connect", "two live nodes cannot connect: %v", err)
		}
		return pub, func() {}
	}
	m := newMember(t, 3*time.Second, nil, noise.WithNodePrivateKey(priv))
	if err := meet(t, m.n, x.n); err != nil {
		t.Violation("connect", "two live nodes cannot connect: %v", err)
	}
	port := portOf(m.n.Addr())
	return pub, func() {
		shut(t, m.n)
		switch mode {
		case "impostor", "impostor-near":
			q := 5
			if mode == "impostor-near" {
				q = p
			}
			_, other := keyIn(x.key(), q)
			newMember(t, 3*time.Second, nil, noise.WithNodePrivateKey(other), noise.WithNodeBindPort(uint16(port)))
		case "silent", "resets", "closes":
			ln, err := net.Listen("tcp", fmt.Sprint(":", port))
			if err != nil {
				t.Note("port %d is taken: %v", port, err)
				return
			}
			var mu sync.Mutex
			var held []net.Conn
			go func() {
				for {
					c, err := ln.Accept()
					if err != nil {
						return
					}
					switch mode {
					case "resets":
						c.(*net.TCPConn).SetLinger(0)
						c.Close()
					case "closes":
						c.Close()
					default:
						mu.Lock()
						held = append(held, c)
						mu.Unlock()
					}
				}
			}()
			t.Cleanup(func() {
				ln.Close()
				mu.Lock()
				defer mu.Unlock()
				for _, c := range held {
					c.Close()
				}
			})
		}
	}
}

// c24evicted: a tail that does not answer under its identity makes way for the newcomer, and nobody else does.
func c24evicted(t *core.T) {
	t.Require("evicted", 10)
	for round := 0; round < t.N(1, 8); round++ {
		t.PerturbRound(round)
		par(len(c24victims), func(i int) {
			mode := c24victims[i]
			p := (i + round) % 3
			x := newMember(t, 3*time.Second, nil, noise.WithNodeMaxDialAttempts(1))
			pub, spoil := c24spoil(t, x, p, mode)
			if !t.Await(core.Long, func() bool { return x.has(pub) }) {
				t.Violation("not-recorded", "a peer (%s) is not recorded", mode)
				return
			}
			planted := x.fill(p)
			spoil()
			if x.o.Table().Last(pub).ID != pub {
				t.Violation("tail", "the tail is not the one recorded first (%s): %v", mode, keyNames(x.o.Table().Bucket(pub)))
				return
			}
			in := round%2 == 0
			c := newcomer(t, x, p, in)
			if !t.Await(core.Long, func() bool { return x.has(c.key()) }) {
				t.Violation("not-admitted", "a newcomer is not recorded although the tail of its bucket (%s) does not answer; events: %v\n%s", mode, x.l, core.LibDump(10))
				return
			}
			// A tail that answers in the wrong way exchanges data, too: it may be recorded again, in favour of the next tail.
			talks := mode == "wrong" || mode == "garbage" || mode == "slow"
			if x.has(pub) && !talks {
				t.Violation("not-evicted", "the tail (%s) is still recorded along with the newcomer", mode)
			}
			if !t.Await(core.Long, func() bool { return x.l.of("admitted", c.key()) >= 1 && x.l.of("evicted", pub) >= 1 }) {
				t.Violation("not-reported", "the tail (%s) was reported %d times as evicted, the newcomer %d times as admitted", mode, x.l.of("evicted", pub), x.l.of("admitted", c.key()))
			}
			at := map[string]int{}
			for j, e := range x.l.list() {
				if _, ok := at["evicted"]; !ok && e.id.ID == pub && e.kind == "evicted" {
					at["evicted"] = j
				}
				if e.id.ID == c.key() && e.kind == "admitted" {
					at["admitted"] = j
				}
			}
			if at["evicted"] > at["admitted"] {
				t.Violation("reported-late", "the newcomer is reported before the eviction that made room for it (%s)", mode)
			}
			for _, id := range planted {
				if !x.has(id.ID) {
					// With a live impostor of the same bucket, that is a newcomer as well, to which the next tail falls.
					if mode != "impostor-near" && !talks {
						t.Violation("other-evicted", "a peer other than the tail (%s) was evicted; events: %v", mode, x.l)
					}
				}
			}
			if n := len(x.o.Table().Bucket(pub)); n != bucketSize {
				t.Violation("size", "a full bucket (%s) has %d entries after a newcomer has come", mode, n)
			}
			t.Count("evicted", 1)
			t.Case("evicted/%s/%d/%v", mode, p, in)
		})
		t.RunCleanups()
	}
}

// c24dropped: recorded peers that cannot be dialed are dropped, others stay.
func c24dropped(t *core.T) {
	t.Require("dropped", 8)
	for round := 0; round < t.N(2, 10); round++ {
		t.PerturbRound(round)
		x := newMember(t, 3*time.Second, nil, noise.WithNodeMaxDialAttempts(2))
		modes := []string{"closed", "silent", "resets", "closes"}
		ops := []string{"ping", "send", "request"}
		var good *member
		good = newMember(t, 3*time.Second, nil)
		meet(t, good.n, x.n)
		for i, mode := range modes {
			pub, spoil := c24spoil(t, x, i%2, mode)
			if !t.Await(core.Long, func() bool { return x.has(pub) && x.has(good.key()) }) {
				t.Violation("not-recorded", "peers are not recorded")
				return
			}
			addr := ""
			for _, id := range x.o.Table().Entries() {
				if id.ID == pub {
					addr = id.Address
				}
			}
			spoil()
			// Its old connection has to be gone, or it would be used.
			t.Await(core.Long, func() bool { return len(x.n.Inbound()) <= 1 && len(x.n.Outbound()) == 0 })
			op := ops[(i+round)%len(ops)]
			ctx, cancel := ctxT(1500 * time.Millisecond)
			var err error
			switch op {
			case "ping":
				_, err = x.n.Ping(ctx, addr)
			case "send":
				err = x.n.Send(ctx, addr, []byte("hello"))
			case "request":
				_, err = x.n.Request(ctx, addr, []byte("hello"))
			}
			cancel()
			if err == nil {
				t.Violation("dialed", "%s to a peer that is gone (%s) succeeds", op, mode)
			}
			if !t.Await(core.Long, func() bool { return !x.has(pub) && x.l.of("evicted", pub) == 1 }) {
				t.Violation("not-dropped", "a peer (%s) that could not be dialed (%s: %v) is recorded: %v, reported as evicted %d times", mode, op, err, x.has(pub), x.l.of("evicted", pub))
			}
			if !x.has(good.key()) {
				t.Violation("other-dropped", "another peer was dropped along with one that could not be dialed (%s)", mode)
				return
			}
			t.Count("dropped", 1)
			t.Case("dropped/%s/%s", mode, op)
		}
		// Failing to dial somebody who is not recorded changes nothing.
		before := x.o.Table().NumEntries()
		evicted := x.l.kinds("evicted")
		ctx, cancel := ctxT(time.Second)
		x.n.Ping(ctx, "127.0.0.1:1")
		cancel()
		if x.o.Table().NumEntries() != before || x.l.kinds("evicted") != evicted {
			t.Violation("unknown-dropped", "failing to dial a stranger changes the table; events: %v", x.l)
		}
		// Neither does the end of a connection.
		good.n.Inbound()
		for _, c := range x.n.Inbound() {
			c.Close()
			c.WaitUntilClosed()
		}
		if !x.has(good.key()) {
			t.Violation("disconnected-dropped", "a peer was dropped when its connection ended")
		}
		t.RunCleanups()
	}
}

// c24several: each newcomer takes the place of one dead peer, while live ones stay, whatever comes at once.
func c24several(t *core.T) {
	t.Require("newcomers", 3)
	for round := 0; round < t.N(2, 12); round++ {
		t.PerturbRound(round)
		rng := t.RNG("several", round)
		x := newMember(t, 10*time.Second, nil, noise.WithNodeMaxDialAttempts(1))
		dead := 1 + rng.Intn(4)
		var gone, live []*member
		for i := 0; i < dead+2; i++ {
			_, priv := keyIn(x.key(), 0)
			m := newMember(t, 3*time.Second, nil, noise.WithNodePrivateKey(priv))
			if err := meet(t, m.n, x.n); err != nil || !t.Await(core.Long, func() bool { return x.has(m.key()) }) {
				t.Violation("not-recorded", "a peer is not recorded: %v", err)
				return
			}
			if i < dead {
				gone = append(gone, m)
			} else {
				live = append(live, m)
			}
		}
		planted := x.fill(0)
		start := len(x.l.list())
		par(len(gone), func(i int) { shut(t, gone[i].n) })
		t.Await(core.Long, func() bool { return len(x.n.Inbound()) == len(live) })
		come := dead + rng.Intn(3) // at most two more than there is room for: the live ones above them are kept
		var newc []*member
		for i := 0; i < come; i++ {
			_, priv := keyIn(x.key(), 0)
			newc = append(newc, newMember(t, 3*time.Second, nil, noise.WithNodePrivateKey(priv)))
		}
		seq := rng.Intn(2) == 0
		one := func(i int) {
			if err := meet(t, newc[i].n, x.n); err != nil {
				t.Violation("connect", "two live nodes cannot connect: %v", err)
			}
		}
		if seq {
			for i := range newc {
				one(i)
				if i < dead && !t.Await(core.Long, func() bool { return x.has(newc[i].key()) }) {
					t.Violation("not-admitted", "newcomer %d is not recorded, with %d dead peers at the tail; events: %v", i, dead, x.l)
					return
				}
				if n := x.l.kinds("evicted"); i < dead && n != i+1 {
					t.Violation("evictions", "%d peers were evicted for %d newcomers", n, i+1)
				}
			}
		} else {
			par(come, one)
		}
		recorded := func() (n int) {
			for _, c := range newc {
				if x.has(c.key()) {
					n++
				}
			}
			return n
		}
		if !t.Await(core.Long, func() bool { return recorded() == dead }) {
			t.Violation("admitted", "%d of %d newcomers are recorded in place of %d dead peers; events: %v", recorded(), come, dead, x.l)
			return
		}
		for _, m := range gone {
			if x.has(m.key()) {
				t.Violation("not-evicted", "a dead tail is still recorded after %d newcomers (%d dead)", come, dead)
			}
		}
		for _, m := range live {
			if !x.has(m.key()) {
				t.Violation("live-evicted", "a live peer was evicted; events: %v", x.l)
			}
		}
		_ = planted
		if n := len(x.o.Table().Bucket(gone[0].key())); n != bucketSize {
			t.Violation("size", "the bucket has %d entries in the end", n)
		}
		_ = start
		t.Count("newcomers", come)
		t.Case("several/%d/%d/%v", dead, come, seq)
		t.RunCleanups()
	}
}

// c24replay: whatever happens, the events add up to the table.
func c24replay(t *core.T) {
	t.Require("tables compared", 10)
	t.Require("admitted", 50)
	t.Require("evicted", 10)
	for round := 0; round < t.N(3, 25); round++ {
		t.PerturbRound(round)
		const size = 9
		var ms []*member
		var start [][]noise.ID
		for i := 0; i < size; i++ {
			m := newMember(t, 500*time.Millisecond, nil, noise.WithNodeMaxDialAttempts(1), noise.WithNodeMaxInboundConnections(6), noise.WithNodeIdleTimeout(2*time.Second))
			if i%3 == 0 { // buckets that are almost full
				for p := 0; p < 3; p++ {
					ids := m.fill(p)
					for _, id := range ids[:1+p] {
						m.o.Table().Delete(id.ID)
					}
				}
			}
			ms = append(ms, m)
			start = append(start, m.o.Table().Entries())
		}
		done := t.MustDo("operations of nodes that come and go", func() {
			par(size, func(i int) {
				r := t.RNG("replay", size*round+i)
				me := ms[i]
				for j := 0; j < 25; j++ {
					peer := ms[r.Intn(size)]
					ctx, cancel := ctxT(time.Duration(1+r.Intn(400)) * time.Millisecond)
					switch r.Intn(8) {
					case 0:
						me.n.Ping(ctx, peer.n.Addr())
					case 1:
						me.n.Send(ctx, peer.n.Addr(), []byte("data"))
					case 2:
						me.n.Request(ctx, peer.n.Addr(), []byte("data"))
					case 3:
						me.o.Ping(ctx, peer.n.Addr())
					case 4:
						me.o.Discover(kademlia.WithIteratorLookupTimeout(300 * time.Millisecond))
					case 5:
						for _, c := range append(me.n.Outbound(), me.n.Inbound()...) {
							if r.Intn(3) == 0 {
								c.Close()
							}
						}
					case 6: // a canceled dial
						cancel()
						me.n.Ping(ctx, peer.n.Addr())
					case 7:
						me.n.Ping(context.Background(), "127.0.0.1:1")
					}
					cancel()
					if i >= 6 && j == 15+i {
						me.n.Close()
						return
					}
				}
			})
		})
		if !done {
			return
		}
		for i, m := range ms {
			var why string
			same := func() bool {
				set, bad := m.l.replay(start[i])
				if bad != "" {
					why = bad
					return false
				}
				ids := m.o.Table().Entries()
				for _, id := range ids {
					if !set[id.ID] {
						why = fmt.Sprintf("%x is in the table, but not by the events", id.ID[:4])
						return false
					}
				}
				if len(ids) != len(set) {
					why = fmt.Sprintf("the table has %d entries, by the events there should be %d", len(ids), len(set))
					return false
				}
				return true
			}
			if !t.Await(core.Long, same) {
				t.Violation("replay", "replaying the events of a node does not yield its table: %s\nevents: %v", why, m.l)
			}
			t.Count("tables compared", 1)
			t.Count("admitted", m.l.kinds("admitted"))
			t.Count("evicted", m.l.kinds("evicted"))
			t.Case("replay/%d/%d", round, i)
		}
		t.RunCleanups()
	}
}

// c24moved: several identities are known under one address, as a peer that is restarted without its key leaves
// behind. Once nobody is there any more, each goes, and is reported to.
func c24moved(t *core.T) {
	t.Require("identities that share an address", 30)
	for round := 0; round < t.N(14, 60); round++ {
		t.PerturbRound(round)
		rng := t.RNG("moved", round)
		x := newMember(t, 3*time.Second, nil, noise.WithNodeMaxDialAttempts(1+uint(rng.Intn(2))))
		var other []noise.ID
		start := x.o.Table().Entries()
		someone := func() {
			k, _ := keyIn(x.key(), rng.Intn(3))
			id := noise.NewID(k, net.IPv4(127, 0, 0, 1), uint16(1+len(other)))
			x.o.Ack(id)
			other = append(other, id)
		}
		var same []noise.ID
		port := uint16(t.Port())
		restarts := 1 + rng.Intn(3)
		for i := 0; i < restarts; i++ {
			someone()
			_, priv := keyIn(x.key(), rng.Intn(2))
			b := mk(t, func(n *noise.Node) { n.Handle(echo) }, noise.WithNodePrivateKey(priv), noise.WithNodeBindPort(port))
			if err := meet(t, b, x.n); err != nil {
				t.Violation("connect", "a peer that was restarted with another key cannot connect: %v", err)
				return
			}
			same = append(same, b.ID())
			if !t.Await(core.Long, func() bool { return x.has(b.ID().ID) }) {
				t.Violation("not-recorded", "a peer that was restarted with another key is not recorded")
				return
			}
			b.Close()
		}
		for i := rng.Intn(4); i > 0; i-- {
			someone()
			k, _ := keyIn(x.key(), rng.Intn(2))
			id := noise.NewID(k, same[0].Host, port)
			x.o.Ack(id)
			same = append(same, id)
		}
		someone()
		t.Await(core.Long, func() bool { return len(x.n.Inbound())+len(x.n.Outbound()) == 0 })
		left := func() (n int) {
			for _, id := range same {
				if x.has(id.ID) {
					n++
				}
			}
			return n
		}
		if n := left(); n != len(same) {
			t.Violation("shared-address", "of %d identities with one address only %d are recorded; events: %v", len(same), n, x.l)
		}
		for n := left(); n > 0; {
			ctx, cancel := ctxT(1500 * time.Millisecond)
			var err error
			switch rng.Intn(3) {
			case 0:
				_, err = x.n.Ping(ctx, same[0].Address)
			case 1:
				err = x.n.Send(ctx, same[0].Address, []byte("hello"))
			case 2:
				err = x.o.Ping(ctx, same[0].Address)
			}
			cancel()
			if err == nil {
				t.Violation("dialed", "an operation towards a peer that is gone succeeds")
				return
			}
			was := n
			if !t.Await(core.Long, func() bool { n = left(); return n < was }) {
				t.Violation("not-dropped", "%d of %d identities are still recorded under an address that cannot be dialed (%v)", was, len(same), err)
				return
			}
			why := ""
			if !t.Await(core.Long, func() bool {
				set, bad := x.l.replay(start)
				why = bad
				if bad != "" {
					return false
				}
				ids := x.o.Table().Entries()
				for _, id := range ids {
					if !set[id.ID] {
						why = fmt.Sprintf("%x is in the table, but not by the events", id.ID[:4])
						return false
					}
				}
				if len(ids) != len(set) {
					why = fmt.Sprintf("the table has %d entries, by the events there should be %d", len(ids), len(set))
				}
				return why == ""
			}) {
				t.Violation("replay", "replaying the events of a node that cannot dial an address shared by %d identities does not yield its table: %s\nevents: %v", len(same), why, x.l)
				return
			}
		}
		for _, id := range other {
			if !x.has(id.ID) {
				t.Violation("other-dropped", "a peer was dropped along with ones at another address; events: %v", x.l)
			}
		}
		for _, id := range same {
			if e := x.l.of("evicted", id.ID); e != 1 {
				t.Violation("unreported", "one of %d identities with an address that cannot be dialed is reported as evicted %d times", len(same), e)
			}
		}
		t.Count("identities that share an address", len(same))
		t.Case("moved/%d/%d", round, len(same))
		t.RunCleanups()
	}
}

// c24crowded: several newcomers at once find a full bucket with a peer at its tail that takes all the time there is
// not to answer, and live ones before it. One of them takes its place, and everybody else stays.
func c24crowded(t *core.T) {
	t.Require("newcomers", 12)
	for round := 0; round < t.N(2, 12); round++ {
		t.PerturbRound(round)
		par(2, func(g int) {
			rng := t.RNG("crowded", 10*round+g)
			x := newMember(t, 4*time.Second, nil, noise.WithNodeMaxDialAttempts(1))
			dead, spoil := c24spoil(t, x, 0, []string{"silent", "mute"}[(round+g)%2])
			var live []*member
			for i := 0; i < 3; i++ {
				m := newcomer(t, x, 0, i%2 == 0)
				if !t.Await(core.Long, func() bool { return x.has(m.key()) }) {
					t.Violation("not-recorded", "a peer is not recorded")
					return
				}
				live = append(live, m)
			}
			x.fill(0)
			spoil()
			t.Await(core.Long, func() bool {
				for _, c := range append(x.n.Inbound(), x.n.Outbound()...) {
					if c.ID().ID == dead && (round+g)%2 == 0 {
						return false
					}
				}
				return true
			})
			var newc []*member
			for i := 0; i < 3+rng.Intn(3); i++ {
				_, priv := keyIn(x.key(), 0)
				newc = append(newc, newMember(t, 4*time.Second, nil, noise.WithNodePrivateKey(priv)))
			}
			par(len(newc), func(i int) {
				if err := meet(t, newc[i].n, x.n); err != nil {
					t.Violation("connect", "two live nodes cannot connect: %v", err)
				}
			})
			recorded := func() (n int) {
				for _, c := range newc {
					if x.has(c.key()) {
						n++
					}
				}
				return n
			}
			if !t.Await(core.Long, func() bool { return recorded() > 0 && !x.has(dead) }) {
				t.Violation("admitted", "%d of %d newcomers are recorded in place of a dead peer; events: %v", recorded(), len(newc), x.l)
				return
			}
			time.Sleep(1500 * time.Millisecond) // the others find the bucket full again
			for _, m := range live {
				if !x.has(m.key()) {
					t.Violation("live-evicted", "a live peer was evicted when %d newcomers came at once; events: %v", len(newc), x.l)
				}
			}
			if n := recorded(); n != 1 {
				t.Violation("admitted", "%d of %d newcomers are recorded in place of a dead peer; events: %v", n, len(newc), x.l)
			}
			t.Count("newcomers", len(newc))
			t.Case("crowded/%d/%d/%d", round, g, len(newc))
		})
		t.RunCleanups()
	}
}
