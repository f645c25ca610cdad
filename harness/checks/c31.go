package checks

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	mrand "math/rand"
	"net"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif.test/h/core"
	"verif.test/h/wire"
)

func init() {
	core.Register(&core.Check{
		ID:   "C31",
		Rule: "one case per line typed and program that has to show it, per command whose answer was compared, per message of a hostile peer, and per way to leave; distinct by scenario, kind of line or message, and who leaves how; non-trivial: the programs had connected",
		Assumptions: []string{"a line is at most 4,000 bytes long (longer ones are sent in pieces)",
			"the order in which lines are shown is not promised, as messages are handled by several workers"},
		Scenarios: []core.Scenario{
			{Name: "lines", Run: c31lines},
			{Name: "commands", Run: c31commands},
			{Name: "hostile", Run: c31hostile},
			{Name: "leaving", Run: c31leaving},
			{Name: "silent", Run: c31silent},
		},
	})
}

// chat is a running chat program.
type chat struct {
	t    *core.T
	cmd  *exec.Cmd
	in   io.WriteCloser
	name string // ADDRESS(ID) as it introduces itself
	addr string

	mu   sync.Mutex
	out  []string
	err  strings.Builder
	done chan struct{}
}

var c31intro = regexp.MustCompile(`^Your ID is (\S+)\(([0-9a-f]{8})\)\. `)

// startChat starts a chat program, and waits until it has introduced itself.
func startChat(t *core.T, args ...string) *chat {
	exe := os.Getenv("VH_CHAT")
	if exe == "" {
		t.Inconclusive("the chat program was not built")
		return nil
	}
	p := &chat{t: t, cmd: exec.Command(exe, args...), done: make(chan struct{})}
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var err error
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		t.Inconclusive("%v", err)
		return nil
	}
	out, w, err := os.Pipe()
	if err != nil {
		t.Inconclusive("%v", err)
		return nil
	}
	p.cmd.Stdout, p.cmd.Stderr = w, &lockedWriter{p: p}
	if err := p.cmd.Start(); err != nil {
		t.Inconclusive("%v", err)
		return nil
	}
	w.Close()
	go func() {
		r := bufio.NewReader(out)
		for {
			s, err := r.ReadString('\n')
			if s != "" {
				p.mu.Lock()
				p.out = append(p.out, strings.TrimSuffix(s, "\n"))
				p.mu.Unlock()
			}
			if err != nil {
				out.Close()
				return
			}
		}
	}()
	go func() { p.cmd.Wait(); close(p.done) }()
	t.Cleanup(func() { p.cmd.Process.Kill(); <-p.done })
	if !t.Await(core.Long, func() bool {
		for _, l := range p.lines() {
			if m := c31intro.FindStringSubmatch(l); m != nil {
				p.name, p.addr = m[1]+"("+m[2]+")", m[1]
				return true
			}
		}
		return p.gone()
	}) || p.name == "" {
		t.Violation("start", "the chat program, started with %q, does not introduce itself: %q, %s", args, p.lines(), p.errors())
		return nil
	}
	t.Count("programs started", 1)
	return p
}

type lockedWriter struct{ p *chat }

func (w *lockedWriter) Write(b []byte) (int, error) {
	w.p.mu.Lock()
	defer w.p.mu.Unlock()
	if w.p.err.Len() < 4000 {
		w.p.err.Write(b)
	}
	return len(b), nil
}

func (p *chat) lines() []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]string{}, p.out...)
}

func (p *chat) errors() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.err.String()
}

func (p *chat) gone() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// alive reports if the program has ended by itself.
func (p *chat) alive() bool {
	if p.gone() {
		p.t.Violation("died", "the chat program %s has ended: %v, %s", p.name, p.cmd.ProcessState, p.errors())
		return false
	}
	return true
}

func (p *chat) typ(line string) { io.WriteString(p.in, line+"\n") }

// count is how often the program has shown exactly that line.
func (p *chat) count(line string) (n int) {
	for _, l := range p.lines() {
		if l == line {
			n++
		}
	}
	return
}

// ask types a command, and returns the next line of which prefix is the beginning.
func (p *chat) ask(cmd, prefix string) (string, bool) {
	before := len(p.lines())
	p.typ(cmd)
	var answer string
	ok := p.t.Await(core.Long, func() bool {
		for _, l := range p.lines()[before:] {
			if strings.HasPrefix(l, prefix) {
				answer = l
				return true
			}
		}
		return p.gone()
	})
	if !ok || answer == "" {
		p.t.Violation("silent", "%q is not answered with %q...: %q, %s", cmd, prefix, p.lines()[before:], p.errors())
		return "", false
	}
	return answer, true
}

var c31list = regexp.MustCompile(`^You know (\d+) peer\(s\): \[(.*)\]$`)

// peers are what the program lists as its peers.
func (p *chat) peers() ([]string, bool) {
	l, ok := p.ask("/peers", "You know ")
	if !ok {
		return nil, false
	}
	m := c31list.FindStringSubmatch(l)
	if m == nil {
		p.t.Violation("list", "peers are listed as %q", l)
		return nil, false
	}
	var ids []string
	if m[2] != "" {
		ids = strings.Split(m[2], ", ")
	}
	if fmt.Sprint(len(ids)) != m[1] {
		p.t.Violation("list", "peers are listed as %q", l)
		return nil, false
	}
	sort.Strings(ids)
	return ids, true
}

// acquaint starts n programs of which each is told of an earlier one, and waits until all know each other.
func acquaint(t *core.T, n int, rng *mrand.Rand) []*chat {
	var all []*chat
	for i := 0; i < n; i++ {
		var args []string
		if i > 0 {
			args = append(args, all[rng.Intn(i)].addr)
		}
		if rng.Intn(2) == 0 {
			args = append([]string{"-p", fmt.Sprint(t.Port())}, args...)
		}
		p := startChat(t, args...)
		if p == nil {
			return nil
		}
		all = append(all, p)
		if i > 0 { // it has pinged the other before it takes commands
			if ids, ok := p.peers(); !ok || len(ids) == 0 {
				t.Violation("bootstrap", "a program started with %q knows nobody: %q", args, p.lines())
				return nil
			}
		}
	}
	if !t.Await(3*core.Long, func() bool {
		done := true
		for _, p := range all {
			if p.gone() {
				return true
			}
			p.ask("/discover", "Di")
			if ids, _ := p.peers(); len(ids) != n-1 {
				done = false
			}
		}
		return done
	}) {
		t.Violation("discover", "%d programs, each told of another, do not discover all others", n)
		return nil
	}
	for _, p := range all {
		if !p.alive() {
			return nil
		}
		want := []string{}
		for _, q := range all {
			if q != p {
				want = append(want, q.name)
			}
		}
		sort.Strings(want)
		if ids, ok := p.peers(); !ok || strings.Join(ids, " ") != strings.Join(want, " ") {
			t.Violation("list", "%s lists %q as its peers, there are %q", p.name, ids, want)
			return nil
		}
		learned := []string{}
		for _, l := range p.lines() {
			if strings.HasPrefix(l, "Learned about a new peer ") {
				learned = append(learned, strings.TrimSuffix(strings.TrimPrefix(l, "Learned about a new peer "), "."))
			}
			if strings.HasPrefix(l, "Forgotten ") {
				t.Violation("forgot", "%s has shown %q", p.name, l)
			}
		}
		sort.Strings(learned)
		if strings.Join(learned, " ") != strings.Join(want, " ") {
			t.Violation("learned", "%s has told that it learned about %q, it knows %q", p.name, learned, want)
		}
		t.Count("lists compared", 1)
	}
	return all
}

const c31kindsOfLine = 11

// c31line is a line to type and what of it is to be shown, nothing if it must not be.
func c31line(rng *mrand.Rand, kind int, tag string) (typed, shown string) {
	switch kind {
	case 0, 1:
		return tag + " hello", tag + " hello"
	case 2:
		s := tag + " " + strings.Repeat(string(rune('a'+rng.Intn(26))), rng.Intn(3900))
		return s, s
	case 3:
		s := "  " + tag + "\t\u00e4\u4e16\U0001f600 \x00\x1b[0m%s%d \r trailing  "
		return s, s
	case 4:
		return tag + " a\xffb\xc3(\xe2\x82", tag + " ab("
	case 5:
		return tag + " carriage return\r", tag + " carriage return"
	case 6:
		return " /peers " + tag, " /peers " + tag
	case 7:
		return "/" + tag, ""
	case 8:
		return "\xff\xfe", ""
	default: // others type the same, again and again
		return "yes", "yes"
	}
}

func c31lines(t *core.T) {
	t.Require("lines that were shown", 800)
	for round := 0; round < t.N(5, 30); round++ {
		rng := t.RNG("lines", round)
		all := acquaint(t, 3+rng.Intn(5), rng)
		if all == nil {
			return
		}
		for _, p := range all { // connections that are about to be idle for too long
			p.typ("ready")
		}
		if !t.Await(core.Long, func() bool {
			for _, p := range all {
				for _, q := range all {
					if p != q && p.count(q.name+"> ready") == 0 {
						return false
					}
				}
			}
			return true
		}) {
			// not judged: the connection may have been closed as idle
			t.Count("lines lost to idle connections", 1)
		}
		type said struct {
			kind  int
			by    *chat
			shown string
		}
		var mu sync.Mutex
		var lines []said
		start := time.Now()
		par(len(all), func(i int) {
			rng := t.RNG("typed", round*100+i)
			for j := 0; j < t.N(30, 60); j++ {
				kind := rng.Intn(c31kindsOfLine)
				typed, shown := c31line(rng, kind, fmt.Sprintf("<%d-%d-%d>", round, i, j))
				mu.Lock()
				lines = append(lines, said{kind, all[i], shown})
				mu.Unlock()
				all[i].typ(typed)
				if kind == 9 {
					mu.Lock()
					lines = append(lines, said{kind, all[i], shown})
					mu.Unlock()
					all[i].typ(typed)
				}
				if rng.Intn(10) == 0 {
					all[i].typ("")
				}
			}
		})
		var last said
		if !t.Await(core.Long, func() bool {
			for _, p := range all {
				got := map[string]int{}
				for _, l := range p.lines() {
					got[l]++
				}
				for _, s := range lines {
					if s.by != p && s.shown != "" {
						if got[s.by.name+"> "+s.shown] <= 0 {
							last = s
							return p.gone()
						}
						got[s.by.name+"> "+s.shown]--
					}
				}
			}
			return true
		}) {
			if time.Since(start) > 90*time.Second {
				t.Inconclusive("the machine is too slow")
				return
			}
			t.Violation("lost", "a line typed at %s is not shown by all others: %.200q", last.by.name, last.shown)
		}
		for i, p := range all { // all that was written before these is there when they are
			p.typ(fmt.Sprintf("the end %d", i))
		}
		time.Sleep(300 * time.Millisecond)
		for _, p := range all {
			if !p.alive() {
				return
			}
			want := map[string]int{}
			for i, q := range all {
				if q == p {
					continue
				}
				want[q.name+"> ready"] = 1
				want[fmt.Sprintf("%s> the end %d", q.name, i)] = 1
				for _, s := range lines {
					if s.by == q && s.shown != "" {
						want[q.name+"> "+s.shown]++
						t.Case("line/%d", s.kind)
					}
				}
			}
			for _, l := range p.lines() {
				switch {
				case want[l] > 0:
					if want[l]--; want[l] == 0 {
						want[l] = -1
					}
					t.Count("lines that were shown", 1)
				case want[l] < 0:
					t.Violation("twice", "%s shows a line more often than it was typed: %.200q", p.name, l)
				case strings.Contains(l, ")> "):
					t.Violation("foreign", "%s shows a line that nobody typed: %.200q", p.name, l)
				case strings.HasPrefix(l, "Failed to send"):
					t.Violation("failed", "%s shows: %.200q", p.name, l)
				}
			}
		}
		for _, p := range all {
			p.cmd.Process.Kill()
		}
	}
}

func c31commands(t *core.T) {
	t.Require("commands", 30)
	for round := 0; round < t.N(5, 30); round++ {
		rng := t.RNG("commands", round)
		alone := startChat(t)
		if alone == nil {
			return
		}
		if ids, ok := alone.peers(); !ok || len(ids) != 0 {
			t.Violation("list", "a program that has met nobody lists %q", ids)
		}
		if l, ok := alone.ask("/discover", "Di"); ok && l != "Did not discover any peers." {
			t.Violation("discover", "a program that has met nobody answers %q", l)
		}
		alone.typ("nobody hears this")
		all := acquaint(t, 4, rng)
		if all == nil {
			return
		}
		for _, p := range all {
			for _, cmd := range []string{"/help", "/", "/peers ", "/Discover", "//", "/quit"} {
				if l, ok := p.ask(cmd, "Your ID is "); ok && !strings.HasPrefix(l, "Your ID is "+p.name+". ") {
					t.Violation("help", "%s introduces itself as %q", p.name, l)
				}
				t.Count("commands", 1)
				t.Case("command/%s", cmd)
			}
			l, ok := p.ask("/discover", "Di")
			if !ok {
				return
			}
			var want []string
			for _, q := range all {
				if q != p {
					want = append(want, q.name)
				}
			}
			sort.Strings(want)
			list := strings.TrimSuffix(strings.TrimPrefix(l, fmt.Sprintf("Discovered %d peer(s): [", len(want))), "]")
			got := strings.Split(list, ", ")
			sort.Strings(got)
			if strings.Join(got, " ") != strings.Join(want, " ") {
				t.Violation("discover", "%s answers %q, there are %q", p.name, l, want)
			}
			t.Count("commands", 1)
			t.Case("command/discover")
		}
		time.Sleep(200 * time.Millisecond)
		for _, p := range append(all, alone) {
			if !p.alive() {
				return
			}
			for _, l := range p.lines() {
				if strings.Contains(l, ")> ") {
					t.Violation("foreign", "%s shows a line that nobody typed: %.200q", p.name, l)
				}
			}
		}
	}
}

func c31hostile(t *core.T) {
	t.Require("messages that are not lines", 60)
	t.Require("lines that were shown", 40)
	for round := 0; round < t.N(5, 30); round++ {
		rng := t.RNG("hostile", round)
		p := startChat(t)
		if p == nil {
			return
		}
		want := map[string]bool{}
		for i := 0; i < 24; i++ {
			id := wire.NewIdentity(t.Port())
			wid, _ := wire.DecodeID(id.Marshal())
			c, err := wire.Dial(loopAddr(p.addr), id, &wire.Options{Timeout: core.Long})
			if err != nil {
				if p.alive() {
					t.Violation("refused", "a peer is not accepted: %v", err)
				}
				return
			}
			name := fmt.Sprintf("%s(%x)", wid.Addr(), wid.Pub[:4])
			say := func(nonce uint64, op int, body string) {
				c.Send(wire.Msg{Nonce: nonce, Data: append(binary.BigEndian.AppendUint16(nil, uint16(op)), body...)})
			}
			for j := 0; j < 2; j++ {
				text := fmt.Sprintf("line %d %d %d", round, i, j)
				say(0, 0, text)
				want[name+"> "+text] = true
				bad := fmt.Sprintf("no line %d %d %d", round, i, j)
				kind := rng.Intn(10)
				switch kind {
				case 0:
					say(1+uint64(rng.Intn(1000)), 0, bad)
				case 1:
					say(0, 0, "")
				case 2:
					say(0, 0, "\xff\xfe\xfd")
				case 3:
					say(0, 5+rng.Intn(60000), bad)
				case 4:
					c.Send(wire.Msg{Data: []byte{0}})
				case 5:
					c.Send(wire.Msg{})
				case 6:
					say(1+uint64(rng.Intn(1000)), 5+rng.Intn(60000), bad)
				case 7:
					say(0, 4, bad) // malformed find-node response
				case 8:
					c.Send(wire.Msg{Nonce: 3, Data: []byte{0}})
				case 9: // many at once
					for k := 0; k < 50; k++ {
						text := fmt.Sprintf("one of many %d %d %d %d", round, i, j, k)
						say(0, 0, text)
						want[name+"> "+text] = true
					}
				}
				t.Count("messages that are not lines", 1)
				t.Case("hostile/%d", kind)
			}
			if !t.Await(core.Long, func() bool { return p.gone() || p.count(fmt.Sprintf("%s> line %d %d 1", name, round, i)) > 0 }) {
				t.Violation("lost", "a line that %s sent amid other messages is not shown: %q", name, p.lines())
				return
			}
			if i%3 == 0 { // ends its connection in one way or another
				switch rng.Intn(3) {
				case 0:
					say(0, 3, "find-node that is no request")
				case 1:
					c.WriteRecord([]byte("no record"))
				case 2:
					say(0, 1, "ping that is no request")
				}
			}
			c.Close()
			if !p.alive() {
				return
			}
		}
		if !t.Await(core.Long, func() bool {
			got := map[string]bool{}
			for _, l := range p.lines() {
				got[l] = true
			}
			for l := range want {
				if !got[l] {
					return p.gone()
				}
			}
			return true
		}) {
			t.Violation("lost", "not all lines that peers sent are shown")
		}
		time.Sleep(100 * time.Millisecond)
		if !p.alive() {
			return
		}
		seen := map[string]bool{}
		for _, l := range p.lines() {
			if !strings.Contains(l, ")> ") {
				continue
			}
			if !want[l] || seen[l] {
				t.Violation("foreign", "a line is shown that was not sent, or again: %.200q", l)
			}
			seen[l] = true
			t.Count("lines that were shown", 1)
		}
		p.cmd.Process.Kill()
	}
}

func loopAddr(addr string) string {
	if strings.HasPrefix(addr, ":") {
		return "127.0.0.1" + addr
	}
	return addr
}

func c31leaving(t *core.T) {
	t.Require("programs that left", 6)
	for round := 0; round < t.N(4, 20); round++ {
		rng := t.RNG("leaving", round)
		dead := fmt.Sprintf("127.0.0.1:%d", t.Port())
		lost := startChat(t, dead)
		if lost == nil {
			return
		}
		if _, ok := lost.peers(); !ok { // it goes on
			return
		}
		if l := strings.Join(lost.lines(), "\n"); !strings.Contains(l, "Failed to ping bootstrap node ("+dead+")") {
			t.Violation("bootstrap", "a program told of a dead peer says %q", l)
		}
		all := acquaint(t, 5, rng)
		if all == nil {
			return
		}
		for i := 0; i < 3; i++ { // 0, 1 and 2 leave, 3 and 4 stay
			switch (i + round) % 3 {
			case 0:
				all[i].cmd.Process.Kill()
				t.Case("leaving/killed")
			case 1:
				all[i].in.Close() // no more input: it goes on to show what it is sent
				all[3].typ(fmt.Sprintf("still there? %d %d", round, i))
				if !t.Await(core.Long, func() bool {
					return all[i].gone() || all[i].count(fmt.Sprintf("%s> still there? %d %d", all[3].name, round, i)) > 0
				}) {
					t.Violation("lost", "a program whose input has ended does not show what is sent to it")
				}
				if !all[i].alive() {
					return
				}
				all[i].cmd.Process.Signal(syscall.SIGINT)
				t.Case("leaving/no input")
			case 2:
				all[i].cmd.Process.Signal(syscall.SIGINT)
				t.Case("leaving/interrupted")
			}
			if !t.Await(core.Long, all[i].gone) {
				t.Violation("stays", "a program that was interrupted does not end")
				return
			}
			if s := all[i].cmd.ProcessState; (i+round)%3 != 0 && s.ExitCode() != 0 {
				t.Violation("exit", "a program that was interrupted ends with %v: %s", s, all[i].errors())
			}
			t.Count("programs that left", 1)
			for try := 0; ; try++ { // the connection between them may just have been closed as idle
				text := fmt.Sprintf("after %d left %d %d", i, round, try)
				all[3].typ(text)
				if t.Await(core.Long/2, func() bool { return all[4].gone() || all[4].count(all[3].name+"> "+text) > 0 }) {
					break
				}
				if try == 2 {
					t.Violation("lost", "after others have left, a line typed at %s is not shown by %s: %q", all[3].name, all[4].name, all[4].lines())
					return
				}
			}
			if !all[3].alive() || !all[4].alive() {
				return
			}
		}
	}
}

// c31silent: some of the peers that a program knows accept connections, and are silent.
func c31silent(t *core.T) {
	t.Require("lines amid silent peers", 4)
	for round := 0; round < t.N(2, 8); round++ {
		rng := t.RNG("silent", round)
		all := acquaint(t, 4, rng)
		if all == nil {
			return
		}
		const silent = 3
		var name string
		for i := 0; i < silent; i++ {
			l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", t.Port())) // nobody accepts
			if err != nil {
				t.Inconclusive("%v", err)
				return
			}
			t.Cleanup(func() { l.Close() })
			id := wire.NewIdentity(uint16(portOf(l.Addr().String())))
			wid, _ := wire.DecodeID(id.Marshal())
			c, err := wire.Dial(loopAddr(all[0].addr), id, &wire.Options{Timeout: core.Long})
			if err != nil {
				t.Violation("refused", "a peer is not accepted: %v", err)
				return
			}
			name = fmt.Sprintf("%s(%x)", wid.Addr(), wid.Pub[:4])
			c.Send(wire.Msg{Data: append([]byte{0, 0}, "hello"...)})
			if !t.Await(core.Long, func() bool {
				return all[0].gone() || all[0].count(name+"> hello") > 0 && all[0].count("Learned about a new peer "+name+".") > 0
			}) {
				t.Violation("lost", "a peer that connects and says hello is not learned of and shown: %q", all[0].lines())
				return
			}
			c.Close()
		}
		for i := 0; i < 2; i++ {
			text := fmt.Sprintf("amid silence %d %d", round, i)
			all[0].typ(text)
			for _, p := range all[1:] {
				if !t.Await(2*core.Long, func() bool { return p.gone() || p.count(all[0].name+"> "+text) > 0 }) {
					t.Violation("lost", "a line typed at a program that knows silent peers is not shown by another: %q", all[0].lines())
					return
				}
				if !p.alive() {
					return
				}
			}
			t.Count("lines amid silent peers", 1)
		}
		t.Case("silent/%d", round)
	}
}
