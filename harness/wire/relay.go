package wire

import (
	"encoding/binary"
	"io"
	"net"
	"sync"
)

// Relay forwards connections to a target frame by frame, and lets a hook see and change each frame.
type Relay struct {
	L      net.Listener
	Target string

	// OnFrame returns the bytes to forward in place of a frame, header included. dir is 0 towards the target. i counts
	// the frames of that direction from 0. Returning nil and false closes both directions.
	OnFrame func(l *Link, dir, i int, raw []byte) ([]byte, bool)
	// OnLink is called for each connection.
	OnLink func(l *Link)

	mu    sync.Mutex
	links []*Link
}

// Link is one relayed connection.
type Link struct {
	A, B net.Conn // the side that connected, and the target's
	wmu  [2]sync.Mutex
	N    int

	mu     sync.Mutex
	Frames [2][][]byte
	Record bool

	gate [2]struct {
		sync.Mutex
		c    *sync.Cond
		shut bool
	}
	done chan struct{}
	once sync.Once
}

// NewRelay listens on addr.
func NewRelay(addr, target string) (*Relay, error) {
	l, err := net.Listen("tcp", addr)
	if err != nil {
		return nil, err
	}
	return &Relay{L: l, Target: target}, nil
}

// Addr is where the relay listens.
func (r *Relay) Addr() string { return r.L.Addr().String() }

// Start serves connections.
func (r *Relay) Start() *Relay {
	go func() {
		for {
			a, err := r.L.Accept()
			if err != nil {
				return
			}
			b, err := net.Dial("tcp", r.Target)
			if err != nil {
				a.Close()
				continue
			}
			l := &Link{A: a, B: b, done: make(chan struct{})}
			for d := range l.gate {
				l.gate[d].c = sync.NewCond(&l.gate[d].Mutex)
			}
			r.mu.Lock()
			l.N = len(r.links)
			r.links = append(r.links, l)
			r.mu.Unlock()
			if r.OnLink != nil {
				r.OnLink(l)
			}
			go r.pump(l, 0, a, b)
			go r.pump(l, 1, b, a)
		}
	}()
	return r
}

// Links returns all connections so far.
func (r *Relay) Links() []*Link {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]*Link{}, r.links...)
}

// Close stops the relay and cuts all its connections.
func (r *Relay) Close() {
	r.L.Close()
	for _, l := range r.Links() {
		l.Cut()
	}
}

// Cut closes both sides of a link.
func (l *Link) Cut() {
	l.once.Do(func() { close(l.done) })
	l.A.Close()
	l.B.Close()
	for d := range l.gate {
		l.Hold(d, false)
	}
}

// Reset aborts both sides of a link with RST.
func (l *Link) Reset() {
	for _, c := range []net.Conn{l.A, l.B} {
		if t, ok := c.(*net.TCPConn); ok {
			t.SetLinger(0)
		}
	}
	l.Cut()
}

// Hold makes a direction stall, or go on.
func (l *Link) Hold(dir int, shut bool) {
	g := &l.gate[dir]
	g.Lock()
	g.shut = shut
	g.c.Broadcast()
	g.Unlock()
}

// Inject writes raw bytes in a direction, between frames.
func (l *Link) Inject(dir int, raw []byte) error {
	l.wmu[dir].Lock()
	defer l.wmu[dir].Unlock()
	w := l.B
	if dir == 1 {
		w = l.A
	}
	_, err := w.Write(raw)
	return err
}

// Recorded returns the frames recorded in a direction, headers included.
func (l *Link) Recorded(dir int) [][]byte {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([][]byte{}, l.Frames[dir]...)
}

func (r *Relay) pump(l *Link, dir int, from, to net.Conn) {
	defer l.Cut()
	for i := 0; ; i++ {
		var h [4]byte
		if _, err := io.ReadFull(from, h[:]); err != nil {
			return
		}
		n := binary.BigEndian.Uint32(h[:])
		if n > 256<<20 {
			return
		}
		raw := make([]byte, 4+n)
		copy(raw, h[:])
		if _, err := io.ReadFull(from, raw[4:]); err != nil {
			return
		}
		l.mu.Lock()
		if l.Record {
			l.Frames[dir] = append(l.Frames[dir], append([]byte{}, raw...))
		}
		l.mu.Unlock()
		ok := true
		if r.OnFrame != nil {
			raw, ok = r.OnFrame(l, dir, i, raw)
		}
		g := &l.gate[dir]
		g.Lock()
		for g.shut {
			g.c.Wait()
		}
		g.Unlock()
		if len(raw) > 0 {
			l.wmu[dir].Lock()
			_, err := to.Write(raw)
			l.wmu[dir].Unlock()
			if err != nil {
				return
			}
		}
		if !ok {
			return
		}
	}
}
