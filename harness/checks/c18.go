package checks

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	mrand "math/rand"
	"reflect"
	"sync"
	"sync/atomic"
	"time"

	"github.com/perlin-network/noise"

	"verif.test/h/core"
)

func init() {
	core.Register(&core.Check{
		ID:          "C18",
		Rule:        "one case per value that was encoded and decoded, or input that must be rejected; distinct by scenario, type, opcode, content and round; non-trivial: more than one type was registered",
		Assumptions: []string{"a decoder's signature is wrong if its parameter or results are of other types than []byte, T and error"},
		Scenarios: []core.Scenario{
			{Name: "values", Run: c18values},
			{Name: "reject", Run: c18reject},
			{Name: "concurrent", Run: c18concurrent},
			{Name: "nested", Run: c18nested},
			{Name: "wire", Run: c18wire},
		},
	})
}

// Types of various kinds.

type (
	c18struct struct {
		A int64
		B string
		C []byte
		D map[string]int
	}
	c18ptr    struct{ X, Y uint32 }
	c18string string
	c18slice  []uint16
	c18map    map[string]string
	c18int    uint64
	c18empty  struct{}
	c18both   struct{ V string } // registered as it is and as a pointer
	c18array  [4]byte
	c18bytes  []byte
	c18func   func() byte
)

func (v c18struct) Marshal() []byte { b, _ := json.Marshal(v); return b }
func (v *c18ptr) Marshal() []byte {
	return binary.BigEndian.AppendUint32(binary.BigEndian.AppendUint32(nil, v.X), v.Y)
}
func (v c18string) Marshal() []byte { return []byte(v) }
func (v c18slice) Marshal() []byte {
	var b []byte
	for _, x := range v {
		b = binary.BigEndian.AppendUint16(b, x)
	}
	return b
}
func (v c18map) Marshal() []byte   { b, _ := json.Marshal(v); return b }
func (v c18int) Marshal() []byte   { return binary.BigEndian.AppendUint64(nil, uint64(v)) }
func (v c18empty) Marshal() []byte { return nil }
func (v c18both) Marshal() []byte  { return []byte(v.V) }
func (v c18array) Marshal() []byte { return v[:] }
func (v c18bytes) Marshal() []byte { return v }
func (v c18func) Marshal() []byte  { return []byte{v()} }

var errC18 = errors.New("malformed")

// c18kind is a type that can be registered, and how to make values of it.
type c18kind struct {
	name string
	zero noise.Serializable
	de   any
	mk   func(r *mrand.Rand) noise.Serializable
	bad  []byte // what its decoder rejects
}

func c18kinds() []c18kind {
	str := func(r *mrand.Rand) string { b := make([]byte, r.Intn(20)); r.Read(b); return fmt.Sprintf("%x", b) }
	return []c18kind{
		{"struct", c18struct{}, func(b []byte) (v c18struct, err error) { err = json.Unmarshal(b, &v); return },
			func(r *mrand.Rand) noise.Serializable {
				return c18struct{r.Int63() - r.Int63(), str(r), []byte(str(r) + "x"), map[string]int{str(r): r.Intn(9)}}
			}, []byte("{")},
		{"pointer", (*c18ptr)(nil), func(b []byte) (*c18ptr, error) {
			if len(b) != 8 {
				return nil, errC18
			}
			return &c18ptr{binary.BigEndian.Uint32(b), binary.BigEndian.Uint32(b[4:])}, nil
		}, func(r *mrand.Rand) noise.Serializable { return &c18ptr{r.Uint32(), r.Uint32()} }, make([]byte, 7)},
		{"string", c18string(""), func(b []byte) (c18string, error) { return c18string(b), nil },
			func(r *mrand.Rand) noise.Serializable { return c18string(str(r)) }, nil},
		{"slice", c18slice(nil), func(b []byte) (c18slice, error) {
			if len(b)%2 != 0 {
				return nil, errC18
			}
			v := c18slice{}
			for ; len(b) > 0; b = b[2:] {
				v = append(v, binary.BigEndian.Uint16(b))
			}
			return v, nil
		}, func(r *mrand.Rand) noise.Serializable {
			v := c18slice{}
			for i := r.Intn(5); i > 0; i-- {
				v = append(v, uint16(r.Uint32()))
			}
			return v
		}, []byte{1}},
		{"map", c18map(nil), func(b []byte) (v c18map, err error) { err = json.Unmarshal(b, &v); return },
			func(r *mrand.Rand) noise.Serializable { return c18map{str(r): str(r), str(r): str(r)} }, []byte("[]")},
		{"int", c18int(0), func(b []byte) (c18int, error) {
			if len(b) != 8 {
				return 0, errC18
			}
			return c18int(binary.BigEndian.Uint64(b)), nil
		}, func(r *mrand.Rand) noise.Serializable { return c18int(r.Uint64()) }, make([]byte, 9)},
		{"empty", c18empty{}, func(b []byte) (c18empty, error) {
			if len(b) > 0 {
				return c18empty{}, errC18
			}
			return c18empty{}, nil
		}, func(r *mrand.Rand) noise.Serializable { return c18empty{} }, []byte{0}},
		{"both, value", c18both{}, func(b []byte) (c18both, error) { return c18both{string(b)}, nil },
			func(r *mrand.Rand) noise.Serializable { return c18both{str(r)} }, nil},
		{"both, pointer", (*c18both)(nil), func(b []byte) (*c18both, error) { return &c18both{string(b)}, nil },
			func(r *mrand.Rand) noise.Serializable { return &c18both{str(r)} }, nil},
		{"array", c18array{}, func(b []byte) (v c18array, err error) {
			if copy(v[:], b) != 4 || len(b) != 4 {
				err = errC18
			}
			return
		}, func(r *mrand.Rand) noise.Serializable { var v c18array; r.Read(v[:]); return v }, []byte{1, 2, 3}},
		{"bytes", c18bytes(nil), func(b []byte) (c18bytes, error) { return append(c18bytes{}, b...), nil },
			func(r *mrand.Rand) noise.Serializable { return c18bytes(str(r) + "y") }, nil},
	}
}

// A thousand types.

type (
	d0 struct{ _ [0]byte }
	d1 struct{ _ [0]byte }
	d2 struct{ _ [0]byte }
	d3 struct{ _ [0]byte }
	d4 struct{ _ [0]byte }
	d5 struct{ _ [0]byte }
	d6 struct{ _ [0]byte }
	d7 struct{ _ [0]byte }
	d8 struct{ _ [0]byte }
	d9 struct{ _ [0]byte }

	numbered[A, B, C any] struct{ Data string }
)

func (v numbered[A, B, C]) Marshal() []byte { return []byte(v.Data) }

type c18num struct {
	reg func(n *noise.Node) uint16
	mk  func(data string) noise.Serializable
	bad func(n *noise.Node) // registers it with a wrongly typed decoder
}

func num0[A, B, C any]() []c18num {
	return []c18num{{
		reg: func(n *noise.Node) uint16 {
			return n.RegisterMessage(numbered[A, B, C]{}, func(b []byte) (numbered[A, B, C], error) { return numbered[A, B, C]{string(b)}, nil })
		},
		mk: func(s string) noise.Serializable { return numbered[A, B, C]{s} },
		bad: func(n *noise.Node) {
			n.RegisterMessage(numbered[A, B, C]{}, func(b []byte) (numbered[C, A, *B], error) { return numbered[C, A, *B]{}, nil })
		},
	}}
}

func num1[A, B any]() (l []c18num) {
	for _, f := range []func() []c18num{num0[A, B, d0], num0[A, B, d1], num0[A, B, d2], num0[A, B, d3], num0[A, B, d4], num0[A, B, d5], num0[A, B, d6], num0[A, B, d7], num0[A, B, d8], num0[A, B, d9]} {
		l = append(l, f()...)
	}
	return
}

func num2[A any]() (l []c18num) {
	for _, f := range []func() []c18num{num1[A, d0], num1[A, d1], num1[A, d2], num1[A, d3], num1[A, d4], num1[A, d5], num1[A, d6], num1[A, d7], num1[A, d8], num1[A, d9]} {
		l = append(l, f()...)
	}
	return
}

func thousand() (l []c18num) {
	for _, f := range []func() []c18num{num2[d0], num2[d1], num2[d2], num2[d3], num2[d4], num2[d5], num2[d6], num2[d7], num2[d8], num2[d9]} {
		l = append(l, f()...)
	}
	return
}

func bare(t *core.T) *noise.Node {
	n, err := noise.NewNode()
	if err != nil {
		panic(err)
	}
	return n
}

// guarded calls f and returns what it panicked with.
func guarded(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return
}

// c18check encodes v on a and decodes it on b.
func c18check(t *core.T, a, b *noise.Node, v noise.Serializable, op uint16, what string) {
	var enc []byte
	var err error
	if p := guarded(func() { enc, err = a.EncodeMessage(v) }); p != nil || err != nil {
		t.Violation("encode", "%s: encoding %#v fails: %v %v", what, v, err, p)
		return
	}
	want := append(binary.BigEndian.AppendUint16(nil, op), v.Marshal()...)
	if !bytes.Equal(enc, want) {
		t.Violation("format", "%s: %#v with opcode %d is encoded as %s, should be %s", what, v, op, short(enc), short(want))
		return
	}
	kept := append([]byte{}, enc...)
	var dec noise.Serializable
	if p := guarded(func() { dec, err = b.DecodeMessage(enc) }); p != nil || err != nil {
		t.Violation("decode", "%s: decoding %#v (%s) fails: %v %v", what, v, short(enc), err, p)
		return
	}
	if reflect.TypeOf(dec) != reflect.TypeOf(v) || !reflect.DeepEqual(dec, v) {
		t.Violation("roundtrip", "%s: %#v with opcode %d decodes to %#v", what, v, op, dec)
	}
	if !bytes.Equal(kept, enc) {
		t.Violation("clobbered", "%s: decoding changed its input", what)
	}
	t.Count("values encoded and decoded", 1)
}

// c18values: types of every kind, registered in any order.
func c18values(t *core.T) {
	t.Require("values encoded and decoded", 3000)
	kinds := c18kinds()
	nums := thousand()
	for round := 0; round < t.N(40, 400); round++ {
		rng := t.RNG("values", round)
		a, b := bare(t), bare(t)
		order := rng.Perm(len(kinds))
		next := uint16(0)
		ops := make([]uint16, len(kinds))
		for i, k := range order {
			// Some other types are in between.
			for j := rng.Intn(4) * rng.Intn(40) * (round % 2); j > 0 && int(next) < 900; j-- {
				nums[int(next)].reg(a)
				nums[int(next)].reg(b)
				next++
			}
			op := a.RegisterMessage(kinds[k].zero, kinds[k].de)
			opb := b.RegisterMessage(kinds[k].zero, kinds[k].de)
			if op != next || opb != next {
				t.Violation("opcode", "type %d registered has the opcodes %d and %d, should be %d", i, op, opb, next)
			}
			ops[k] = op
			next++
		}
		for i := 0; i < 10; i++ {
			for k, kind := range kinds {
				v := kind.mk(rng)
				c18check(t, a, b, v, ops[k], kind.name)
				t.Case("values/%s/%d/%x", kind.name, ops[k], v.Marshal())
				if round == 0 && i == 0 && k < 2 {
					t.Sample("%s: %#v is encoded with opcode %d and decoded", kind.name, v, ops[k])
				}
			}
		}
		// A pointer to a registered type may be encoded, too.
		s := c18struct{A: int64(round), B: "p", C: []byte("q"), D: map[string]int{"r": 1}}
		enc, err := a.EncodeMessage(&s)
		if err != nil {
			t.Violation("encode", "encoding a pointer to a registered type fails: %v", err)
		} else if dec, err := b.DecodeMessage(enc); err != nil || !reflect.DeepEqual(dec, s) {
			t.Violation("roundtrip", "a pointer to %#v decodes to %#v, %v", s, dec, err)
		}
	}
	// Many types: opcodes beyond one byte.
	a, b := bare(t), bare(t)
	for i, x := range nums {
		if op, opb := x.reg(a), x.reg(b); int(op) != i || int(opb) != i {
			t.Violation("opcode", "type %d registered has the opcodes %d and %d", i, op, opb)
		}
	}
	for i, x := range nums {
		c18check(t, a, b, x.mk(fmt.Sprint("number ", i)), uint16(i), "many types")
		t.Case("many/%d", i)
	}
}

// c18reject: what cannot be encoded or decoded is an error; wrong registrations panic and change nothing.
func c18reject(t *core.T) {
	t.Require("inputs rejected", 2000)
	t.Require("registrations rejected", 300)
	kinds := c18kinds()
	nums := thousand()
	for round := 0; round < t.N(30, 300); round++ {
		rng := t.RNG("reject", round)
		n := bare(t)
		mustErr := func(what string, f func() (any, error)) {
			var v any
			var err error
			if p := guarded(func() { v, err = f() }); p != nil {
				t.Violation("panic", "%s panicked: %v", what, p)
			} else if err == nil {
				t.Violation("accepted", "%s gave %#v and no error", what, v)
			}
			t.Count("inputs rejected", 1)
			t.Case("reject/%s/%d", what, round)
		}
		dec := func(b []byte) func() (any, error) { return func() (any, error) { return n.DecodeMessage(b) } }
		mustErr("decoding an empty registry's opcode 0", dec([]byte{0, 0}))
		order := rng.Perm(len(kinds))
		registered := 0
		wrong := func(k c18kind, known bool) {
			T := reflect.TypeOf(k.zero)
			errT := reflect.TypeOf((*error)(nil)).Elem()
			bT := reflect.TypeOf([]byte(nil))
			fn := func(in, out []reflect.Type, variadic bool) any {
				return reflect.MakeFunc(reflect.FuncOf(in, out, variadic), func([]reflect.Value) []reflect.Value { return nil }).Interface()
			}
			var des []any
			if known {
				des = []any{k.de}
			}
			des = append(des, nil, 7, "decoder",
				fn([]reflect.Type{bT}, []reflect.Type{T}, false),
				fn([]reflect.Type{bT}, []reflect.Type{errT, T}, false),
				fn([]reflect.Type{bT}, []reflect.Type{reflect.PtrTo(T), errT}, false),
				fn([]reflect.Type{bT}, []reflect.Type{reflect.TypeOf((*noise.Serializable)(nil)).Elem(), errT}, false),
				fn([]reflect.Type{reflect.TypeOf("")}, []reflect.Type{T, errT}, false),
				fn([]reflect.Type{}, []reflect.Type{T, errT}, false),
				fn([]reflect.Type{bT, bT}, []reflect.Type{T, errT}, false),
				fn([]reflect.Type{reflect.SliceOf(bT)}, []reflect.Type{T, errT}, true),
				fn([]reflect.Type{bT}, []reflect.Type{T, errT, errT}, false),
				fn([]reflect.Type{bT}, []reflect.Type{T, reflect.TypeOf(errC18)}, false),
			)
			for i, de := range des {
				var op uint16
				if p := guarded(func() { op = n.RegisterMessage(k.zero, de) }); p == nil {
					t.Violation("registered", "registering %s (known: %v) with a decoder of type %T did not panic, but gave opcode %d", k.name, known, de, op)
				}
				t.Count("registrations rejected", 1)
				t.Case("register/%s/%v/%d", k.name, known, i)
			}
		}
		for i, k := range order {
			if rng.Intn(3) == 0 {
				wrong(kinds[k], false)
			}
			op := n.RegisterMessage(kinds[k].zero, kinds[k].de)
			if int(op) != registered {
				t.Violation("disturbed", "after rejected registrations, type %d registered has opcode %d", registered, op)
			}
			registered++
			if rng.Intn(3) == 0 {
				wrong(kinds[k], true)
			}
			for j := range order[:i+1] {
				kj := kinds[order[j]]
				c18check(t, n, n, kj.mk(rng), uint16(j), kj.name+" after rejected registrations")
				if kj.bad != nil {
					mustErr("decoding what the decoder of "+kj.name+" rejects", dec(append(binary.BigEndian.AppendUint16(nil, uint16(j)), kj.bad...)))
				}
			}
			for _, k := range order[i+1:] {
				if kinds[k].name == "both, pointer" { // encoded as the value it points to, possibly
					continue
				}
				v := kinds[k].mk(rng)
				mustErr("encoding an unregistered "+kinds[k].name, func() (any, error) { return n.EncodeMessage(v) })
			}
			if rng.Intn(2) == 0 {
				mustErr("encoding an unregistered type", func() (any, error) { return n.EncodeMessage(nums[rng.Intn(1000)].mk("x")) })
			}
		}
		mustErr("encoding an unregistered func", func() (any, error) { return n.EncodeMessage(c18func(func() byte { return 1 })) })
		mustErr("encoding nil", func() (any, error) { return n.EncodeMessage(nil) })
		mustErr("decoding nil", dec(nil))
		mustErr("decoding nothing", dec([]byte{}))
		for _, x := range []byte{0, 1, byte(registered), 0xff} {
			mustErr(fmt.Sprintf("decoding the single byte %d", x), dec([]byte{x}))
		}
		for i := 0; i < 40; i++ {
			op := []int{registered, registered + 1, 255, 256, 257, 512, 0x0100 * (1 + rng.Intn(registered)), 0xffff, registered + rng.Intn(65536-registered)}[i%9]
			mustErr(fmt.Sprintf("decoding the unknown opcode %d", op), dec(append(binary.BigEndian.AppendUint16(nil, uint16(op)), make([]byte, rng.Intn(9))...)))
		}
	}
}

// c18concurrent: types are registered and used at once.
func c18concurrent(t *core.T) {
	t.Require("types registered concurrently", 3000)
	t.Require("values encoded and decoded", 2000)
	nums := thousand()
	for round := 0; round < t.N(8, 80); round++ {
		t.PerturbRound(round)
		n := bare(t)
		const workers = 8
		var clock atomic.Int64
		type reg struct {
			op         uint16
			begin, end int64
			wins       int
		}
		regs := make([]reg, len(nums))
		var mu sync.Mutex
		var known atomic.Int64
		var knownIdx [1000]atomic.Int64 // idx of types that are registered, in the order in which this became known
		perm := t.RNG("order", round).Perm(len(nums))
		var next atomic.Int64
		total := 500
		par(workers+4, func(g int) {
			rng := t.RNG(fmt.Sprint("conc", round), g)
			if g >= workers { // users
				for {
					k := known.Load()
					if k >= int64(total) {
						return
					}
					if k == 0 {
						time.Sleep(10 * time.Microsecond)
						continue
					}
					i := int(knownIdx[rng.Int63n(k)].Load())
					mu.Lock()
					op := regs[i].op
					mu.Unlock()
					c18check(t, n, n, nums[i].mk(fmt.Sprint(g, i)), op, "while types are registered")
				}
			}
			for {
				pos := int(next.Add(1)) - 1
				if pos >= 2*total {
					return
				}
				i := perm[pos/2] // two goroutines try each type
				if rng.Intn(10) == 0 && regs0(&mu, &regs[i].wins) == 0 && guarded(func() { nums[i].bad(n) }) == nil {
					t.Violation("registered", "registering a type with a wrongly typed decoder did not panic")
				}
				begin := clock.Add(1)
				var op uint16
				p := guarded(func() { op = nums[i].reg(n) })
				end := clock.Add(1)
				if p != nil {
					continue
				}
				mu.Lock()
				regs[i].wins++
				regs[i].op, regs[i].begin, regs[i].end = op, begin, end
				knownIdx[known.Load()].Store(int64(i))
				known.Add(1)
				mu.Unlock()
			}
		})
		seen := map[uint16]int{}
		for pos := 0; pos < total; pos++ {
			i := perm[pos]
			r := regs[i]
			if r.wins != 1 {
				t.Violation("twice", "a type was registered %d times by two concurrent calls, should be once", r.wins)
				continue
			}
			if j, dup := seen[r.op]; dup {
				t.Violation("clash", "types %d and %d have the same opcode %d", i, j, r.op)
			}
			seen[r.op] = i
			if int(r.op) >= total {
				t.Violation("opcode", "%d types are registered, but one of them has opcode %d", total, r.op)
			}
			c18check(t, n, n, nums[i].mk(fmt.Sprint("later ", i)), r.op, "after types were registered concurrently")
			t.Count("types registered concurrently", 1)
			t.Case("concurrent/%d/%d/%d", i, r.op, round)
		}
		// In order: whatever was registered before another registration began has the smaller opcode.
		latest, at := int64(0), 0
		for op := 0; op < total; op++ {
			i, ok := seen[uint16(op)]
			if !ok {
				continue
			}
			if regs[i].end < latest {
				t.Violation("order", "a type that was registered before the registration of another one began has the larger opcode: %d instead of %d", op, at)
			}
			if regs[i].begin > latest {
				latest, at = regs[i].begin, op
			}
		}
	}
}

func regs0(mu *sync.Mutex, p *int) int {
	mu.Lock()
	defer mu.Unlock()
	return *p
}

// An envelope holds another message, which is encoded and decoded along with it.
type c18envelope struct {
	n     *noise.Node
	depth int
	inner noise.Serializable
}

func (e c18envelope) Marshal() []byte {
	b, err := e.n.EncodeMessage(e.inner)
	if err != nil {
		panic(err)
	}
	return append([]byte{byte(e.depth)}, b...)
}

// c18nested: messages that contain messages, while types are being registered.
func c18nested(t *core.T) {
	t.Require("nested messages", 500)
	nums := thousand()
	for round := 0; round < t.N(10, 100); round++ {
		t.PerturbRound(round)
		n := bare(t)
		n.RegisterMessage(c18string(""), func(b []byte) (c18string, error) { return c18string(b), nil })
		n.RegisterMessage(c18envelope{}, func(b []byte) (c18envelope, error) {
			if len(b) < 1 {
				return c18envelope{}, errC18
			}
			m, err := n.DecodeMessage(b[1:])
			return c18envelope{n, int(b[0]), m}, err
		})
		stop := make(chan struct{})
		regDone := make(chan struct{})
		go func() {
			defer close(regDone)
			for i := range nums {
				select {
				case <-stop:
					return
				default:
				}
				nums[i].reg(n)
				time.Sleep(10 * time.Microsecond)
			}
		}()
		done := make(chan struct{})
		go func() {
			defer close(done)
			par(6, func(g int) {
				for i := 0; i < 40; i++ {
					depth := 1 + (g+i)%5
					var v noise.Serializable = c18string(fmt.Sprint(g, "/", i))
					for d := 1; d <= depth; d++ {
						v = c18envelope{n, d, v}
					}
					b, err := n.EncodeMessage(v)
					if err != nil {
						t.Violation("encode", "encoding a nested message fails: %v", err)
						return
					}
					w, err := n.DecodeMessage(b)
					if err != nil || !reflect.DeepEqual(v, w) {
						t.Violation("roundtrip", "a message nested %d times decodes to %#v, %v", depth, w, err)
						return
					}
					t.Count("nested messages", 1)
					t.Case("nested/%d/%d/%d/%d", depth, g, i, round)
				}
			})
		}()
		hung := !t.Done(core.Long, done)
		close(stop)
		if hung {
			t.Violation("deadlock", "encoding and decoding messages that contain messages blocks forever while types are being registered\n%s", core.LibDump(8))
			return
		}
		if !t.Done(core.Long, regDone) {
			t.Violation("deadlock", "registering a type blocks forever\n%s", core.LibDump(8))
			return
		}
	}
}

// c18wire: the same end to end.
func c18wire(t *core.T) {
	t.Require("messages sent", 300)
	t.Require("requests made", 150)
	kinds := c18kinds()
	for round := 0; round < t.N(6, 60); round++ {
		t.PerturbRound(round)
		rng := t.RNG("wire", round)
		order := rng.Perm(len(kinds))
		reg := func(n *noise.Node) {
			for _, k := range order {
				n.RegisterMessage(kinds[k].zero, kinds[k].de)
			}
		}
		got := make(chan noise.Serializable, 1000)
		var handlerErr atomic.Value
		b := mk(t, func(n *noise.Node) {
			reg(n)
			n.Handle(func(ctx noise.HandlerContext) error {
				m, err := ctx.DecodeMessage()
				if err != nil {
					handlerErr.Store(err.Error())
					return nil
				}
				if !ctx.IsRequest() {
					got <- m
					return nil
				}
				if s, ok := m.(c18string); ok {
					switch s {
					case "unregistered":
						if ctx.SendMessage(numbered[d0, d1, d2]{"x"}) == nil {
							t.Violation("accepted", "an unregistered type was sent as a response")
						}
						return ctx.SendMessage(c18string("rejected"))
					case "unknown opcode":
						return ctx.Send([]byte{9, 9, 1})
					case "short":
						return ctx.Send([]byte{0})
					}
				}
				return ctx.SendMessage(m)
			})
		})
		a := mk(t, func(n *noise.Node) { reg(n) })
		ctx, cancel := ctxT(2 * core.Long)
		for i := 0; i < 6; i++ {
			for _, k := range order {
				v := kinds[k].mk(rng)
				if err := a.SendMessage(ctx, loop(b), v); err != nil {
					t.Violation("send", "sending %#v fails: %v", v, err)
					continue
				}
				var w noise.Serializable
				if !t.Do(core.Long, func() { w = <-got }) {
					t.Violation("send", "%#v was sent, but is not received (the handler's error: %v)", v, handlerErr.Load())
					break
				}
				if reflect.TypeOf(v) != reflect.TypeOf(w) || !reflect.DeepEqual(v, w) {
					t.Violation("roundtrip", "%#v was sent, %#v is received", v, w)
				}
				t.Count("messages sent", 1)
				if i%2 == 0 {
					w, err := a.RequestMessage(ctx, loop(b), v)
					if err != nil || reflect.TypeOf(v) != reflect.TypeOf(w) || !reflect.DeepEqual(v, w) {
						t.Violation("roundtrip", "the request %#v, to be answered with itself, gives %#v, %v", v, w, err)
					}
					t.Count("requests made", 1)
				}
				t.Case("wire/%s/%x", kinds[k].name, v.Marshal())
			}
		}
		if r, err := a.RequestMessage(ctx, loop(b), c18string("unregistered")); err != nil || r != noise.Serializable(c18string("rejected")) {
			t.Violation("roundtrip", "after an unregistered type was rejected as a response, the proper one gives %#v, %v", r, err)
		}
		for _, s := range []c18string{"unknown opcode", "short"} {
			if r, err := a.RequestMessage(ctx, loop(b), s); err == nil {
				t.Violation("accepted", "a response with an %s gave %#v and no error", s, r)
			}
		}
		if _, err := a.RequestMessage(ctx, loop(b), numbered[d0, d1, d2]{}); err == nil {
			t.Violation("accepted", "an unregistered type was sent as a request")
		}
		if a.SendMessage(ctx, loop(b), numbered[d0, d1, d2]{}) == nil {
			t.Violation("accepted", "an unregistered type was sent as a message")
		}
		if a.SendMessage(ctx, loop(b), nil) == nil {
			t.Violation("accepted", "nil was sent as a message")
		}
		cancel()
		t.RunCleanups()
	}
}
