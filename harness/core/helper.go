package core

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
)

// Helpers are programs that scenarios run in processes of their own.
var Helpers = map[string]func(args []string){}

// Proc is a running helper.
type Proc struct {
	Cmd   *exec.Cmd
	In    io.WriteCloser
	lines chan string
	once  sync.Once
	done  chan struct{}
}

// Helper starts a helper. Its stdin ends when it is to stop; what it prints are lines for the scenario.
func (t *T) Helper(name string, args ...string) (*Proc, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(exe, args...)
	cmd.Env = append(os.Environ(), "VH_HELPER="+name, "GORACE=halt_on_error=0 exitcode=0 log_path=stderr")
	cmd.Stderr = os.Stderr
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	p := &Proc{Cmd: cmd, In: in, lines: make(chan string, 4096), done: make(chan struct{})}
	go func() {
		sc := bufio.NewScanner(out)
		sc.Buffer(nil, 16<<20)
		for sc.Scan() {
			p.lines <- sc.Text()
		}
		close(p.lines)
		cmd.Wait()
		close(p.done)
	}()
	t.Cleanup(p.Stop)
	return p, nil
}

// Line waits for the next line that starts with prefix, and returns what follows.
func (p *Proc) Line(t *T, prefix string) (string, bool) {
	var res string
	ok, over := false, false
	t.Await(2*Long, func() bool {
		for {
			select {
			case l, open := <-p.lines:
				if !open {
					over = true
					return true
				}
				if strings.HasPrefix(l, prefix) {
					res, ok = strings.TrimPrefix(l, prefix), true
					return true
				}
			default:
				return false
			}
		}
	})
	return res, ok && !over
}

// Say sends the helper a line.
func (p *Proc) Say(format string, args ...any) { fmt.Fprintf(p.In, format+"\n", args...) }

// Exited reports whether the helper has ended.
func (p *Proc) Exited() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// Stop ends the helper.
func (p *Proc) Stop() {
	p.once.Do(func() {
		p.In.Close()
		p.Cmd.Process.Kill()
		<-p.done
	})
}
