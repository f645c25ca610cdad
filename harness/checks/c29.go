package checks

import (
	"context"
	"fmt"
	"io"
	mrand "math/rand"
	"sync"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/gossip"
	"github.com/perlin-network/noise/kademlia"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"

	"verif.test/h/core"
	"verif.test/h/wire"
)

func init() {
	core.Register(&core.Check{
		ID:   "C29",
		Rule: "one case per round of a workload; distinct by scenario, round, and numbers of operations; non-trivial: at least two goroutines used the same node",
		Assumptions: []string{"a race is the library's if one of the two conflicting accesses is made by its code",
			"nodes bind protocols and register handlers before they listen or dial, and are asked for their identity and address after Listen has returned, as documented"},
		Scenarios: []core.Scenario{
			{Name: "api", Run: c29api},
			{Name: "pools", Run: c29pools},
			{Name: "shutdown", Run: c29shutdown},
			{Name: "cancel", Run: c29cancel},
			{Name: "faults", Run: c29faults},
			{Name: "overlay", Run: c29overlay},
			{Name: "gossip", Run: c29gossip},
			{Name: "contexts", Run: c29contexts},
			{Name: "setup", Run: c29setup},
			{Name: "lives", Run: c29lives},
		},
	})
}

// The workloads avoid whatever would order the library's accesses by accident: their goroutines share nothing while
// they run, and count what they do by themselves.

// Types that are registered while others are encoded and decoded.
type c29type[T any] struct{ b byte }

func (m c29type[T]) Marshal() []byte { return []byte{m.b} }

func c29decode[T any](b []byte) (c29type[T], error) {
	if len(b) != 1 {
		return c29type[T]{}, errC18
	}
	return c29type[T]{b[0]}, nil
}

func c29register(n *noise.Node, i int) {
	switch i {
	case 0:
		n.RegisterMessage(c29type[int]{}, c29decode[int])
	case 1:
		n.RegisterMessage(c29type[uint]{}, c29decode[uint])
	case 2:
		n.RegisterMessage(c29type[string]{}, c29decode[string])
	case 3:
		n.RegisterMessage(c29type[byte]{}, c29decode[byte])
	case 4:
		n.RegisterMessage(c29type[bool]{}, c29decode[bool])
	case 5:
		n.RegisterMessage(c29type[error]{}, c29decode[error])
	case 6:
		n.RegisterMessage(c29type[rune]{}, c29decode[rune])
	case 7:
		n.RegisterMessage(c29type[float64]{}, c29decode[float64])
	}
}

// busy is a node with everything on it, whose application uses the contexts it is handed from several goroutines.
type busy struct {
	n *noise.Node
	k *kademlia.Protocol
	g *gossip.Protocol
}

func c29logger() *zap.Logger {
	return zap.New(zapcore.NewCore(zapcore.NewJSONEncoder(zap.NewProductionEncoderConfig()), zapcore.AddSync(io.Discard), zap.DebugLevel))
}

func newBusy(t *core.T, o ...opt) *busy {
	b := &busy{}
	b.n = mk(t, func(n *noise.Node) {
		k := kademlia.New(kademlia.WithProtocolPingTimeout(200*time.Millisecond), kademlia.WithProtocolEvents(kademlia.Events{
			OnPeerAdmitted: func(noise.ID) {}, OnPeerEvicted: func(noise.ID) {}, OnPeerActivity: func(noise.ID) {},
		}))
		b.k, b.g = k, gossip.New(k, gossip.WithEvents(gossip.Events{OnGossipReceived: func(_ noise.ID, d []byte) error {
			if len(d) > 0 && d[0] == 'x' {
				return errC27
			}
			return nil
		}}))
		n.RegisterMessage(c18string(""), func(b []byte) (c18string, error) { return c18string(b), nil })
		n.Bind(noise.Protocol{
			OnPeerConnected:    func(c *noise.Client) { _ = c.ID(); c.Logger() },
			OnPeerDisconnected: func(c *noise.Client) { _ = c.ID(); _ = c.Error() },
			OnPingFailed:       func(string, error) {},
			OnMessageSent:      func(c *noise.Client) { _ = c.ID() },
			OnMessageRecv:      func(c *noise.Client) { _ = c.Error() },
		}, k.Protocol(), b.g.Protocol())
		n.Handle(func(ctx noise.HandlerContext) error {
			d := ctx.Data()
			_ = ctx.ID()
			switch {
			case ctx.IsRequest() && len(d) > 0 && d[0] == 0xee:
				return ctx.Send(d)
			case len(d) > 0 && d[0] == 0xed:
				go func() { ctx.Send(ctx.Data()) }()
				go func() { ctx.DecodeMessage(); ctx.Logger().Debug("decoded") }()
			case len(d) > 0 && d[0] == 0xec:
				return errC27
			default:
				m, err := ctx.DecodeMessage()
				if s, ok := m.(c18string); ok && err == nil && ctx.IsRequest() {
					return ctx.SendMessage(s)
				}
			}
			return nil
		})
	}, append(opts(noise.WithNodeNumWorkers(3), noise.WithNodeMaxDialAttempts(1)), o...)...)
	return b
}

// op does one random thing to b that concerns the peer at addr, and returns what.
func (b *busy) op(rng *mrand.Rand, addr string, cancel bool) string {
	d := 2 * time.Second
	if cancel {
		d = time.Duration(rng.Intn(3000)) * time.Microsecond
	}
	ctx, stop := context.WithTimeout(context.Background(), d)
	defer stop()
	body := make([]byte, 1+rng.Intn(200))
	rng.Read(body)
	var key noise.PublicKey
	rng.Read(key[:])
	lookup := []kademlia.IteratorOption{kademlia.WithIteratorLookupTimeout(200 * time.Millisecond), kademlia.WithIteratorMaxNumResults(8)}
	tab := b.k.Table()
	someone := func() noise.ID {
		if l := tab.Entries(); len(l) > 0 {
			return l[rng.Intn(len(l))]
		}
		return b.n.ID()
	}
	switch k := rng.Intn(30); k {
	case 0, 1, 2:
		body[0] = 0xf0
		b.n.Send(ctx, addr, body)
		return "Send"
	case 3, 4, 5:
		body[0] = 0xee
		b.n.Request(ctx, addr, body)
		return "Request"
	case 6:
		body[0] = 0xed
		b.n.Request(ctx, addr, body)
		return "Request"
	case 7:
		b.n.SendMessage(ctx, addr, c18string(body))
		return "SendMessage"
	case 8, 9:
		b.n.RequestMessage(ctx, addr, c18string(body))
		return "RequestMessage"
	case 10, 11, 12, 13:
		c, err := b.n.Ping(ctx, addr)
		if err != nil {
			return "Ping"
		}
		useClient(rng, c)
		return "Client"
	case 14:
		for _, c := range b.n.Inbound() {
			useClient(rng, c)
		}
		return "Inbound"
	case 15:
		for _, c := range b.n.Outbound() {
			useClient(rng, c)
		}
		return "Outbound"
	case 16:
		b.n.ID()
		b.n.Addr()
		b.n.Logger()
		b.n.Sign(body)
		return "ID"
	case 17:
		if e, err := b.n.EncodeMessage(c18string(body)); err == nil {
			b.n.DecodeMessage(e)
		}
		b.n.DecodeMessage(body)
		return "Codec"
	case 18:
		b.n.Bind(noise.Protocol{})
		b.n.Handle(func(noise.HandlerContext) error { return nil })
		return "Bind"
	case 19:
		b.k.Ping(ctx, addr)
		return "Overlay.Ping"
	case 20:
		b.k.Find(key, lookup...)
		return "Overlay.Find"
	case 21:
		b.k.Discover(lookup...)
		return "Overlay.Discover"
	case 22:
		tab.FindClosest(key, 16)
		tab.Peers()
		return "Table.FindClosest"
	case 23:
		tab.Entries()
		tab.NumEntries()
		tab.Self()
		return "Table.Entries"
	case 24:
		tab.Bucket(key)
		tab.Last(key)
		tab.Recorded(key)
		return "Table.Bucket"
	case 25:
		id := someone()
		if rng.Intn(2) == 0 {
			tab.Delete(id.ID)
		} else {
			tab.DeleteByAddress(id.Address)
		}
		return "Table.Delete"
	case 26:
		tab.Update(someone())
		return "Table.Update"
	case 27:
		b.k.Ack(someone())
		return "Overlay.Ack"
	case 28:
		for i := range body {
			body[i] = byte(rng.Intn(2))
		}
		b.g.Push(ctx, body[:min(len(body), 3)])
		return "Push"
	default:
		b.g.Push(ctx, body)
		return "Push"
	}
}

func useClient(rng *mrand.Rand, c *noise.Client) {
	switch rng.Intn(9) {
	case 0:
		c.Close()
	case 1:
		c.SetLogger(zap.NewNop())
	case 2:
		c.SetLogger(c29logger())
	case 3:
		c.WaitUntilReady()
	case 4:
		_ = c.Error()
	case 5:
		c.Logger().Debug("used")
	case 6:
		if rng.Intn(3) == 0 {
			c.Close()
			c.WaitUntilClosed()
		}
	default:
		_ = c.ID()
	}
}

// tally adds up what goroutines did, once they have done it.
func tally(t *core.T, all []map[string]int) {
	for _, m := range all {
		for k, n := range m {
			t.Count("op "+k, n)
			t.Count("operations", n)
		}
	}
}

// swarm has workers goroutines per node do things for a while.
func swarm(t *core.T, name string, round int, bs []*busy, addrs func(rng *mrand.Rand) string, workers int, d time.Duration, cancel bool) {
	all := make([]map[string]int, workers*len(bs))
	if !t.Do(d+3*core.Long, func() {
		par(len(all), func(w int) {
			rng := t.RNG(name, 1000*round+w)
			m := map[string]int{}
			for end := time.Now().Add(d); time.Now().Before(end); {
				m[bs[w%len(bs)].op(rng, addrs(rng), cancel)]++
			}
			all[w] = m
		})
	}) {
		t.Note("operations do not end: %s", short([]byte(core.LibDump(3)))) // the subject of other checks
		return
	}
	tally(t, all)
	n := 0
	for _, m := range all {
		for _, k := range m {
			n += k
		}
	}
	t.Case("%s/%d/%d", name, round, n)
}

func someOf(bs []*busy) func(rng *mrand.Rand) string {
	var l []string
	for _, b := range bs {
		l = append(l, b.n.Addr())
	}
	return func(rng *mrand.Rand) string { return l[rng.Intn(len(l))] }
}

func c29logged(round int) []opt {
	if round%2 == 0 {
		return opts(noise.WithNodeLogger(c29logger()))
	}
	return nil
}

// c29api: everything there is, from many goroutines.
func c29api(t *core.T) {
	t.Require("operations", 1500)
	for round := 0; round < t.N(5, 40); round++ {
		t.PerturbRound(round)
		var bs []*busy
		for i := 0; i < 3+round%3; i++ {
			bs = append(bs, newBusy(t, c29logged(round)...))
		}
		swarm(t, "api", round, bs, someOf(bs), 5, 1500*time.Millisecond, round%3 == 2)
		t.RunCleanups()
	}
}

// c29pools: pools so small that connections are evicted all the time.
func c29pools(t *core.T) {
	t.Require("operations", 1500)
	for round := 0; round < t.N(5, 40); round++ {
		t.PerturbRound(round)
		var bs []*busy
		for i := 0; i < 5; i++ {
			size := uint(1 + (round+i)%3)
			bs = append(bs, newBusy(t, append(c29logged(round), noise.WithNodeMaxInboundConnections(size), noise.WithNodeMaxOutboundConnections(size))...))
		}
		swarm(t, "pools", round, bs, someOf(bs), 4, 1500*time.Millisecond, round%3 == 2)
		t.RunCleanups()
	}
}

// c29shutdown: nodes are closed, by several goroutines at once, under the operations of theirs and of others.
func c29shutdown(t *core.T) {
	t.Require("operations", 800)
	t.Require("closed", 20)
	for round := 0; round < t.N(8, 60); round++ {
		t.PerturbRound(round)
		var bs []*busy
		for i := 0; i < 4; i++ {
			bs = append(bs, newBusy(t, c29logged(round)...))
		}
		var wg sync.WaitGroup
		for i, b := range bs[:3] {
			rng := t.RNG("closer", 10*round+i)
			at := time.Duration(rng.Intn(600)) * time.Millisecond
			for k := 0; k < 3; k++ {
				wg.Add(1)
				go func(b *busy) {
					defer wg.Done()
					time.Sleep(at)
					b.n.Close()
				}(b)
			}
		}
		swarm(t, "shutdown", round, bs, someOf(bs), 5, 700*time.Millisecond, round%3 == 2)
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		if !t.Done(core.Long, done) {
			t.Note("a node that was closed does not end")
			return
		}
		t.Count("closed", 3)
		t.RunCleanups()
	}
}

// c29cancel: operations that are given up at any time, on peers that answer, do not answer, or do not exist.
func c29cancel(t *core.T) {
	t.Require("operations", 1500)
	for round := 0; round < t.N(5, 40); round++ {
		t.PerturbRound(round)
		bs := []*busy{newBusy(t, c29logged(round)...), newBusy(t), newBusy(t, noise.WithNodeMaxOutboundConnections(2), noise.WithNodeMaxDialAttempts(3))}
		addrs := []string{bs[0].n.Addr(), bs[1].n.Addr(), bs[2].n.Addr(), fmt.Sprintf("127.0.0.1:%d", t.Port())}
		for steps := 0; steps < 3; steps++ {
			if a, err := silent(t, steps); err == nil {
				addrs = append(addrs, a)
			}
		}
		if a, err := blackhole(t); err == nil {
			addrs = append(addrs, a)
		}
		r := newRef(t, func(r *ref, c *wire.Conn, m wire.Msg) bool { return m.Nonce%7 != 3 }) // answers nothing
		addrs = append(addrs, r.nid().Address)
		swarm(t, "cancel", round, bs, func(rng *mrand.Rand) string { return addrs[rng.Intn(len(addrs))] }, 5, 1500*time.Millisecond, true)
		t.RunCleanups()
	}
}

// c29faults: connections that stall, end, are reset, or carry what nobody sent.
func c29faults(t *core.T) {
	t.Require("operations", 800)
	t.Require("faults", 30)
	for round := 0; round < t.N(5, 40); round++ {
		t.PerturbRound(round)
		bs := []*busy{newBusy(t, c29logged(round)...), newBusy(t), newBusy(t)}
		var rs []*wire.Relay
		for _, b := range bs {
			r, err := wire.NewRelay(fmt.Sprintf("127.0.0.1:%d", t.Port()), loop(b.n))
			if err != nil {
				continue
			}
			rs = append(rs, r.Start())
			t.Cleanup(r.Close)
		}
		if len(rs) == 0 {
			continue
		}
		stop := make(chan struct{})
		faults := 0
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := t.RNG("fault", round)
			for {
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(rng.Intn(30)) * time.Millisecond):
				}
				ls := rs[rng.Intn(len(rs))].Links()
				if len(ls) == 0 {
					continue
				}
				l := ls[max(0, len(ls)-1-rng.Intn(3))]
				switch rng.Intn(4) {
				case 0:
					l.Cut()
				case 1:
					l.Reset()
				case 2:
					b := make([]byte, rng.Intn(60))
					rng.Read(b)
					l.Inject(rng.Intn(2), wire.Frame(b))
				case 3:
					d := rng.Intn(2)
					l.Hold(d, true)
					time.Sleep(time.Duration(rng.Intn(10)) * time.Millisecond)
					l.Hold(d, false)
				}
				faults++
			}
		}()
		swarm(t, "faults", round, bs, func(rng *mrand.Rand) string { return rs[rng.Intn(len(rs))].Addr() }, 4, 1500*time.Millisecond, round%3 == 2)
		close(stop)
		wg.Wait()
		t.Count("faults", faults)
		t.RunCleanups()
	}
}

// c29overlay: full buckets, peers that come and go, lookups, and an application that asks for and changes the table.
func c29overlay(t *core.T) {
	t.Require("operations", 500)
	for round := 0; round < t.N(4, 30); round++ {
		t.PerturbRound(round)
		x := newBusy(t, c29logged(round)...)
		rng := t.RNG("overlay", round)
		for p := 0; p < 3; p++ {
			for i := 0; i < bucketSize; i++ {
				k, _ := keyIn(x.n.ID().ID, p)
				x.k.Table().Update(noise.NewID(k, x.n.ID().Host, uint16(1+rng.Intn(20))))
			}
		}
		bs := []*busy{x}
		for i := 0; i < 7; i++ {
			bs = append(bs, newBusy(t))
		}
		all := make([]map[string]int, 16)
		par(len(all), func(w int) {
			rng := t.RNG("member", 100*round+w)
			m := map[string]int{}
			b := bs[w%len(bs)]
			for end := time.Now().Add(1500 * time.Millisecond); time.Now().Before(end); {
				ctx, cancel := context.WithTimeout(context.Background(), time.Second)
				var key noise.PublicKey
				rng.Read(key[:])
				tab := b.k.Table()
				switch rng.Intn(9) {
				case 0:
					if c, err := b.n.Ping(ctx, x.n.Addr()); err == nil && rng.Intn(3) == 0 {
						c.Close()
					}
					m["Ping"]++
				case 1:
					x.k.Find(key, kademlia.WithIteratorLookupTimeout(300*time.Millisecond), kademlia.WithIteratorNumParallelLookups(5))
					m["Overlay.Find"]++
				case 2:
					b.k.Discover(kademlia.WithIteratorLookupTimeout(300 * time.Millisecond))
					m["Overlay.Discover"]++
				case 3:
					b.k.Ping(ctx, bs[rng.Intn(len(bs))].n.Addr())
					m["Overlay.Ping"]++
				case 4:
					b.k.Ack(bs[rng.Intn(len(bs))].n.ID())
					m["Overlay.Ack"]++
				case 5:
					tab.Delete(bs[rng.Intn(len(bs))].n.ID().ID)
					tab.DeleteByAddress(bs[rng.Intn(len(bs))].n.Addr())
					m["Table.Delete"]++
				case 6:
					for _, id := range tab.FindClosest(key, 1+rng.Intn(40)) {
						_ = id.String()
					}
					m["Table.FindClosest"]++
				case 7:
					tab.Bucket(key)
					tab.Last(key)
					tab.Entries()
					tab.NumEntries()
					m["Table.Bucket"]++
				case 8:
					tab.Update(bs[rng.Intn(len(bs))].n.ID())
					m["Table.Update"]++
				}
				cancel()
			}
			all[w] = m
		})
		tally(t, all)
		t.Case("overlay/%d", round)
		t.RunCleanups()
	}
}

// c29gossip: the same and different data pushed by many goroutines of many nodes.
func c29gossip(t *core.T) {
	t.Require("operations", 500)
	for round := 0; round < t.N(4, 30); round++ {
		t.PerturbRound(round)
		var bs []*busy
		for i := 0; i < 6; i++ {
			bs = append(bs, newBusy(t, append(c29logged(round), noise.WithNodeNumWorkers(4))...))
		}
		for i := range bs {
			for j := 0; j < i; j++ {
				meet(t, bs[i].n, bs[j].n)
			}
		}
		all := make([]map[string]int, 18)
		par(len(all), func(w int) {
			rng := t.RNG("pusher", 100*round+w)
			m := map[string]int{}
			b := bs[w%len(bs)]
			for q := 0; q < 60; q++ {
				data := []byte{byte(round), byte(q), byte(rng.Intn(2))}
				if rng.Intn(10) == 0 {
					data = make([]byte, 70000)
					data[0] = byte(q)
				}
				if rng.Intn(20) == 0 {
					data[0] = 'x' // is rejected
				}
				ctx, cancel := context.WithTimeout(context.Background(), time.Duration(rng.Intn(20))*time.Millisecond)
				b.g.Push(ctx, data)
				cancel()
				m["Push"]++
			}
			all[w] = m
		})
		tally(t, all)
		t.Case("gossip/%d", round)
		t.RunCleanups()
	}
}

// c29contexts: every context is used by several goroutines, during the handler and after it, while connections end.
func c29contexts(t *core.T) {
	t.Require("operations", 300)
	for round := 0; round < t.N(5, 40); round++ {
		t.PerturbRound(round)
		x := mk(t, func(n *noise.Node) {
			n.RegisterMessage(c18string(""), func(b []byte) (c18string, error) { return c18string(b), nil })
			for h := 0; h < 2; h++ {
				n.Handle(func(ctx noise.HandlerContext) error {
					var wg sync.WaitGroup
					for i := 0; i < 4; i++ {
						i := i
						wg.Add(1)
						go func() {
							if i < 2 {
								wg.Done() // goes on after the handler has returned
								time.Sleep(time.Duration(i) * time.Millisecond)
							} else {
								defer wg.Done()
							}
							_, d := ctx.ID(), ctx.Data()
							ctx.Logger().Debug("handling")
							if m, err := ctx.DecodeMessage(); err == nil && i%2 == 0 {
								ctx.SendMessage(m)
							} else if ctx.IsRequest() || i == 1 {
								ctx.Send(d)
							}
						}()
					}
					wg.Wait()
					if d := ctx.Data(); len(d) > 5 && d[5] == 7 {
						return errC27
					}
					return nil
				})
			}
		}, append(c29logged(round), noise.WithNodeNumWorkers(4))...)
		var ps []*noise.Node
		for i := 0; i < 3; i++ {
			ps = append(ps, mk(t, func(n *noise.Node) {
				n.RegisterMessage(c18string(""), func(b []byte) (c18string, error) { return c18string(b), nil })
			}))
		}
		all := make([]map[string]int, 9)
		par(len(all), func(w int) {
			rng := t.RNG("caller", 100*round+w)
			m := map[string]int{}
			for end := time.Now().Add(900 * time.Millisecond); time.Now().Before(end); {
				ctx, cancel := context.WithTimeout(context.Background(), time.Second)
				b := make([]byte, rng.Intn(30))
				rng.Read(b)
				switch rng.Intn(5) {
				case 0:
					ps[w%3].RequestMessage(ctx, x.Addr(), c18string(b))
				case 1:
					ps[w%3].SendMessage(ctx, x.Addr(), c18string(b))
				case 2:
					ps[w%3].Send(ctx, x.Addr(), b)
				case 3:
					ps[w%3].Request(ctx, x.Addr(), b)
				case 4:
					if c, err := ps[w%3].Ping(ctx, x.Addr()); err == nil && rng.Intn(4) == 0 {
						c.Close()
					}
				}
				m["Call"]++
				cancel()
			}
			all[w] = m
		})
		tally(t, all)
		t.Case("contexts/%d", round)
		t.RunCleanups()
	}
}

// c29setup: protocols are bound, handlers and messages registered from many goroutines, the latter while in use.
func c29setup(t *core.T) {
	t.Require("operations", 500)
	for round := 0; round < t.N(10, 80); round++ {
		t.PerturbRound(round)
		n, err := noise.NewNode(append(c29logged(round), noise.WithNodeBindPort(t.Port()))...)
		if err != nil {
			t.Inconclusive("no node: %v", err)
			return
		}
		all := make([]map[string]int, 8)
		par(8, func(i int) {
			rng := t.RNG("setup", 10*round+i)
			m := map[string]int{}
			for k := 0; k < 6; k++ {
				switch rng.Intn(4) {
				case 0:
					n.Bind(noise.Protocol{OnPeerConnected: func(*noise.Client) {}})
				case 1:
					n.Handle(func(noise.HandlerContext) error { return nil })
				case 2:
					n.EncodeMessage(c29type[int]{1})
					n.DecodeMessage([]byte{0, byte(rng.Intn(10)), 5})
				case 3:
					n.Logger()
					n.Inbound()
					n.Outbound()
				}
				m["Setup"]++
			}
			all[i] = m
		})
		tally(t, all)
		if n.Listen() != nil {
			n.Close()
			continue
		}
		t.Cleanup(func() { shut(t, n) })
		p := mk(t, nil)
		par(8, func(i int) {
			rng := t.RNG("use", 10*round+i)
			m := map[string]int{}
			c29register(n, i)
			for k := 0; k < 10; k++ {
				n.EncodeMessage(c29type[int]{1})
				n.EncodeMessage(c29type[string]{1})
				n.DecodeMessage([]byte{0, byte(rng.Intn(10)), 5})
				n.ID()
				n.Addr()
				n.Bind(noise.Protocol{})
				n.Handle(func(noise.HandlerContext) error { return nil })
				ctx, cancel := context.WithTimeout(context.Background(), time.Second)
				p.Send(ctx, n.Addr(), []byte{0, byte(rng.Intn(10)), 5})
				cancel()
				m["Use"]++
			}
			all[i] = m
		})
		tally(t, all)
		t.Case("setup/%d", round)
		t.RunCleanups()
	}
}

// c29lives: short lives: connections that idle out, nodes that end while they are being connected to.
func c29lives(t *core.T) {
	t.Require("operations", 200)
	for round := 0; round < t.N(6, 50); round++ {
		t.PerturbRound(round)
		rng := t.RNG("lives", round)
		var bs []*busy
		for i := 0; i < 3; i++ {
			bs = append(bs, newBusy(t, append(c29logged(round), noise.WithNodeIdleTimeout(time.Duration(20+rng.Intn(80))*time.Millisecond))...))
		}
		all := make([]map[string]int, 9)
		addr := someOf(bs)
		par(len(all), func(w int) {
			rng := t.RNG("short", 100*round+w)
			m := map[string]int{}
			b := bs[w%3]
			for q := 0; q < 14; q++ {
				ctx, cancel := context.WithTimeout(context.Background(), time.Second)
				switch rng.Intn(4) {
				case 0:
					if c, err := b.n.Ping(ctx, addr(rng)); err == nil {
						c.WaitUntilClosed() // it idles out
						_ = c.Error()
					}
				case 1:
					b.n.Send(ctx, addr(rng), []byte{0xf1})
				case 2:
					b.n.Request(ctx, addr(rng), []byte{0xee})
				case 3:
					time.Sleep(time.Duration(rng.Intn(60)) * time.Millisecond)
				}
				m["Short"]++
				cancel()
			}
			all[w] = m
			if w%3 == 0 && round%2 == 0 {
				b.n.Close()
			}
		})
		tally(t, all)
		t.Case("lives/%d", round)
		t.RunCleanups()
	}
}
