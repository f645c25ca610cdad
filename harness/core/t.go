// Package core runs scenarios in processes of their own, and gathers what their monitors observed.
package core

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"net"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif.test/h/yield"
)

// Scenario is one workload with its monitors, which runs in a process of its own.
type Scenario struct {
	Name      string
	Run       func(*T)
	Timeout   time.Duration // watchdog of the quick tier; default 120 s
	Exclusive bool          // does not share the machine with other scenarios of the check
	Env       []string
	Thorough  bool // only part of the thorough tier
}

// Check decides one property.
type Check struct {
	ID          string
	Rule        string
	Assumptions []string
	Scenarios   []Scenario
}

var Checks = map[string]*Check{}

// Register adds a check.
func Register(c *Check) { Checks[c.ID] = c }

type record struct {
	Kind  string            `json:"k"`
	Key   string            `json:"key,omitempty"`
	Text  string            `json:"text,omitempty"`
	N     map[string]int64  `json:"n,omitempty"`
	Case  int64             `json:"case,omitempty"`
	Keys  []uint64          `json:"keys,omitempty"`
	Extra map[string]string `json:"extra,omitempty"`
}

// T is handed to a scenario.
type T struct {
	Check, Name string
	Thorough    bool
	Seed        int64
	Rand        *rand.Rand // for the scenario's own goroutine

	mu         sync.Mutex
	out        *os.File
	counters   map[string]int64
	required   map[string]int64
	cases      int64
	keys       map[uint64]struct{}
	samples    int
	violations int
	seenKinds  map[string]int
	cleanups   []func()

	portBase, portNext, portSpan int
	sites                        int
	round                        uint64
	dead                         atomic.Bool
	memKind, memText             string
}

func hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func (t *T) emit(r record) {
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	t.out.Write(append(b, '\n'))
}

// N picks a number by tier.
func (t *T) N(quick, thorough int) int {
	if t.Thorough {
		return thorough
	}
	return quick
}

// RNG returns a generator of its own for a goroutine.
func (t *T) RNG(name string, i int) *rand.Rand {
	return rand.New(rand.NewSource(t.Seed ^ int64(hash(fmt.Sprintf("%s/%s/%s/%d", t.Check, t.Name, name, i)))))
}

// Violation reports that the property was observed not to hold. Repetitions of one kind are only counted.
func (t *T) Violation(kind, format string, args ...any) {
	t.mu.Lock()
	t.violations++
	t.seenKinds[kind]++
	n := t.seenKinds[kind]
	t.mu.Unlock()
	if n > 3 {
		return
	}
	t.emit(record{Kind: "violation", Key: kind, Text: fmt.Sprintf(format, args...)})
}

// Violations returns the number of violations so far.
func (t *T) Violations() int {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.violations
}

// Finding reports an observation which the known findings may list under key; otherwise it is a violation.
func (t *T) Finding(key, format string, args ...any) {
	t.mu.Lock()
	t.seenKinds["finding:"+key]++
	n := t.seenKinds["finding:"+key]
	t.mu.Unlock()
	if n > 1 {
		return
	}
	t.emit(record{Kind: "finding", Key: key, Text: fmt.Sprintf(format, args...)})
}

// Inconclusive reports that the harness could not establish what it needs.
func (t *T) Inconclusive(format string, args ...any) {
	t.emit(record{Kind: "inconclusive", Text: fmt.Sprintf(format, args...)})
}

// Note leaves a line for the log.
func (t *T) Note(format string, args ...any) {
	t.emit(record{Kind: "note", Text: fmt.Sprintf(format, args...)})
}

// Count adds to a counter of observed events.
func (t *T) Count(name string, n int) {
	t.mu.Lock()
	t.counters[name] += int64(n)
	t.mu.Unlock()
}

// Get returns a counter.
func (t *T) Get(name string) int64 {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.counters[name]
}

// Require states that a counter must reach a minimum, or else the monitors have not seen what they are for.
func (t *T) Require(name string, min int) {
	t.mu.Lock()
	t.required[name] = int64(min)
	t.mu.Unlock()
}

// Case counts one execution that was judged. key tells distinct ones apart.
func (t *T) Case(format string, args ...any) {
	k := hash(fmt.Sprintf(format, args...))
	t.mu.Lock()
	t.cases++
	if len(t.keys) < 100000 {
		t.keys[k] = struct{}{}
	}
	t.mu.Unlock()
}

// Sample writes out an actual case.
func (t *T) Sample(format string, args ...any) {
	t.mu.Lock()
	t.samples++
	n := t.samples
	t.mu.Unlock()
	if n > 2 {
		return
	}
	s := fmt.Sprintf(format, args...)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	t.emit(record{Kind: "sample", Text: s})
}

// Cleanup runs f when the scenario ends, in reverse order.
func (t *T) Cleanup(f func()) {
	t.mu.Lock()
	t.cleanups = append(t.cleanups, f)
	t.mu.Unlock()
}

// RunCleanups runs what has been registered so far, for rounds that clean up on their own.
func (t *T) RunCleanups() {
	t.mu.Lock()
	l := t.cleanups
	t.cleanups = nil
	t.mu.Unlock()
	for i := len(l) - 1; i >= 0; i-- {
		l[i]()
	}
}

const poll = 5 * time.Millisecond

// Await polls cond until it holds, for a number of polls which take about d on an idle machine and longer on a
// starved one.
func (t *T) Await(d time.Duration, cond func() bool) bool {
	for i := 0; ; i++ {
		if cond() {
			return true
		}
		if time.Duration(i)*poll >= d {
			return false
		}
		time.Sleep(poll)
		if i%64 == 63 {
			runtime.Gosched()
		}
	}
}

// Long is how long something that is to happen "promptly" is waited for.
const Long = 20 * time.Second

// Do runs fn and reports whether it returned within d.
func (t *T) Do(d time.Duration, fn func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		fn()
	}()
	return t.Done(d, done)
}

// Done waits for a channel to be closed.
func (t *T) Done(d time.Duration, done <-chan struct{}) bool {
	return t.Await(d, func() bool {
		select {
		case <-done:
			return true
		default:
			return false
		}
	})
}

// MustDo is Do with a violation if fn does not return.
func (t *T) MustDo(kind string, fn func()) bool {
	if t.Do(Long, fn) {
		return true
	}
	t.Violation(kind, "did not return; library goroutines:\n%s", LibDump(40))
	return false
}

// Perturb installs a new schedule perturbation plan; level 0 disables it.
func (t *T) Perturb(level int) {
	t.round++
	if level == 0 {
		yield.Off()
		return
	}
	p := yield.Plan{Seed: uint64(t.Seed)*1000003 + t.round*7919 + hash(t.Check+t.Name), Sites: t.sites}
	switch level {
	case 1: // many small reorderings
		p.Gosched = 0.15
	case 2: // a few sites are slow
		p.Gosched, p.Hot, p.Sleep, p.MaxSleep, p.Budget = 0.05, 12, 0.5, 2*time.Millisecond, 400*time.Millisecond
	default: // one or two sites are very slow
		p.Gosched, p.Hot, p.Sleep, p.MaxSleep, p.Budget = 0.02, 4, 0.8, 20*time.Millisecond, 800*time.Millisecond
	}
	yield.Set(p)
}

// PerturbRound cycles through the levels.
func (t *T) PerturbRound(i int) { t.Perturb([]int{0, 1, 2, 3, 2}[i%5]) }

func newT(c *Check, s *Scenario, out *os.File) *T {
	t := &T{
		Check: c.ID, Name: s.Name, out: out,
		Thorough: os.Getenv("VERIF_TIER") == "thorough",
		counters: map[string]int64{}, required: map[string]int64{}, keys: map[uint64]struct{}{}, seenKinds: map[string]int{},
	}
	fmt.Sscan(os.Getenv("VERIF_SEED"), &t.Seed)
	t.Rand = t.RNG("", 0)
	fmt.Sscan(os.Getenv("VH_PORTS"), &t.portBase)
	t.portSpan = 700
	fmt.Sscan(os.Getenv("VH_SITES"), &t.sites)
	return t
}

// runChild runs one scenario in this process.
func runChild(c *Check, s *Scenario) int {
	out, err := os.OpenFile(os.Getenv("VH_OUT"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	t := newT(c, s, out)
	go t.guard()
	s.Run(t)
	yield.Off()
	t.finish()
	return 0
}

// memoryLimit is how many bytes a scenario may hold, so that what runs away does not take the machine with it.
const memoryLimit = 8 << 30

// OnMemory sets what memory that runs away is a violation of. By default, it is the end of the process.
func (t *T) OnMemory(kind, text string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.memKind, t.memText = kind, text
}

func (t *T) guard() {
	for {
		time.Sleep(100 * time.Millisecond)
		b, err := os.ReadFile("/proc/self/statm")
		var size, resident int64
		if err != nil {
			return
		}
		if n, _ := fmt.Sscan(string(b), &size, &resident); n != 2 || resident*int64(os.Getpagesize()) < memoryLimit {
			continue
		}
		t.mu.Lock()
		kind, text := t.memKind, t.memText
		t.mu.Unlock()
		if kind != "" {
			t.Violation(kind, "%s: the process holds %d MB", text, resident*int64(os.Getpagesize())>>20)
		}
		syscall.Kill(os.Getpid(), syscall.SIGKILL)
	}
}

func (t *T) finish() {
	t.mu.Lock()
	keys := make([]uint64, 0, len(t.keys))
	for k := range t.keys {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	n := map[string]int64{}
	for k, v := range t.counters {
		n[k] = v
	}
	cases := t.cases
	var missing []string
	for k, v := range t.required {
		if t.counters[k] < v {
			missing = append(missing, fmt.Sprintf("%s: %d < %d", k, t.counters[k], v))
		}
	}
	t.mu.Unlock()
	sites, gosched, sleeps, total := yield.Stats()
	n["~sites"], n["~yields"], n["~sleeps"], n["~slept_ms"] = int64(sites), int64(gosched), int64(sleeps), total.Milliseconds()
	sort.Strings(missing)
	for _, m := range missing {
		t.Inconclusive("the monitors observed too little: %s", m)
	}
	t.emit(record{Kind: "done", N: n, Case: cases, Keys: keys})
	t.RunCleanups()
}

const lib = "github.com/perlin-network/noise"

// Stacks returns the stacks of all goroutines.
func Stacks() []string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			return strings.Split(string(buf[:n]), "\n\n")
		}
		buf = make([]byte, 2*len(buf))
	}
}

// LibStacks returns the stacks of goroutines which the library created.
func LibStacks() []string {
	var l []string
	for _, s := range Stacks() {
		if i := strings.LastIndex(s, "created by "); i >= 0 && strings.HasPrefix(s[i+len("created by "):], lib) {
			l = append(l, s)
		}
	}
	return l
}

// LibDump is a readable summary of the library's goroutines and of those of others inside of it.
func LibDump(max int) string {
	var b strings.Builder
	n := 0
	for _, s := range Stacks() {
		if !strings.Contains(s, lib) {
			continue
		}
		n++
		if n > max {
			continue
		}
		sc := bufio.NewScanner(strings.NewReader(s))
		for i := 0; sc.Scan() && i < 24; i++ {
			if line := sc.Text(); !strings.HasPrefix(line, "\t") || strings.Contains(line, "/repo") || strings.Contains(line, "src/") {
				b.WriteString(line + "\n")
			}
		}
		b.WriteByte('\n')
	}
	return fmt.Sprintf("%d goroutines in the library\n%s", n, b.String())
}

// Sockets returns the number of open sockets of this process.
func Sockets() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	n := 0
	for _, e := range d {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, "socket:") {
			n++
		}
	}
	return n
}

// Port returns a TCP port of this scenario's own range which nothing listens on.
func (t *T) Port() uint16 {
	for i := 0; i < t.portSpan; i++ {
		t.mu.Lock()
		p := t.portBase + t.portNext%t.portSpan
		t.portNext++
		t.mu.Unlock()
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err != nil {
			continue
		}
		l.Close()
		return uint16(p)
	}
	panic("harness: no free port")
}

// Stage names what the scenario is doing if the process may not survive it. If it is killed meanwhile, that is a
// violation.
func (t *T) Stage(s string) { t.emit(record{Kind: "stage", Text: s}) }
