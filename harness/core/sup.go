package core

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

type result struct {
	s          *Scenario
	violations []record
	findings   []record
	inconc     []string
	samples    []string
	notes      []string
	n          map[string]int64
	cases      int64
	keys       []uint64
	races      []string
	done       bool
	hang       string
	wall       time.Duration
	log        string
}

// Main is the entry point of the supervisor and of its children.
func Main() {
	if name := os.Getenv("VH_HELPER"); name != "" {
		Helpers[name](os.Args[1:])
		return
	}
	if name := os.Getenv("VH_CHILD"); name != "" {
		id, sc, _ := strings.Cut(name, "/")
		c := Checks[id]
		for i := range c.Scenarios {
			if c.Scenarios[i].Name == sc {
				os.Exit(runChild(c, &c.Scenarios[i]))
			}
		}
		fmt.Fprintln(os.Stderr, "no scenario", name)
		os.Exit(3)
	}
	if len(os.Args) < 2 || Checks[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "usage: vh CHECK [SCENARIO...]")
		os.Exit(3)
	}
	os.Exit(supervise(Checks[os.Args[1]], os.Args[2:]))
}

func supervise(c *Check, only []string) int {
	start := time.Now()
	tmp, err := os.MkdirTemp("", "vh-"+c.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(tmp)

	thorough := os.Getenv("VERIF_TIER") == "thorough"
	var todo []*Scenario
	for i := range c.Scenarios {
		s := &c.Scenarios[i]
		if s.Thorough && !thorough {
			continue
		}
		if len(only) > 0 {
			ok := false
			for _, o := range only {
				ok = ok || o == s.Name
			}
			if !ok {
				continue
			}
		}
		todo = append(todo, s)
	}
	if len(todo) == 0 {
		fmt.Fprintln(os.Stderr, "no such scenario")
		return 3
	}

	results := make([]*result, len(todo))
	sem := make(chan struct{}, 4)
	var wg sync.WaitGroup
	for i, s := range todo {
		if s.Exclusive {
			continue
		}
		i, s := i, s
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			results[i] = runScenario(c, s, tmp, i, thorough)
		}()
	}
	wg.Wait()
	for i, s := range todo {
		if s.Exclusive {
			results[i] = runScenario(c, s, tmp, i, thorough)
		}
	}
	return report(c, results, start, thorough, len(only) > 0)
}

func runScenario(c *Check, s *Scenario, tmp string, i int, thorough bool) *result {
	var r *result
	for attempt := 0; attempt < 2; attempt++ {
		r = runOnce(c, s, tmp, i, attempt, thorough)
		if len(r.violations) > 0 || len(r.inconc) == 0 {
			return r
		}
		for _, x := range r.inconc {
			fmt.Printf("inconclusive: %s/%s (attempt %d): %s\n", c.ID, s.Name, attempt+1, clip(x, 500))
		}
	}
	if r.hang != "" { // twice
		r.violations = append(r.violations, record{Kind: "violation", Key: "hang", Text: "a call into the library never returned\n" + r.hang})
		r.inconc = nil
	}
	return r
}

func runOnce(c *Check, s *Scenario, tmp string, i, attempt int, thorough bool) *result {
	begin := time.Now()
	dir := filepath.Join(tmp, fmt.Sprintf("%d-%d", i, attempt))
	os.MkdirAll(dir, 0o755)
	outFile, logFile := filepath.Join(dir, "out"), filepath.Join(dir, "log")
	lf, _ := os.Create(logFile)
	exe, _ := os.Executable()
	cmd := exec.Command(exe)
	cmd.Dir = dir
	cmd.Stdout, cmd.Stderr = lf, lf
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Env = append(os.Environ(),
		"VH_CHILD="+c.ID+"/"+s.Name,
		"VH_OUT="+outFile,
		fmt.Sprintf("VH_PORTS=%d", 10000+(i*2+attempt)%32*700),
		"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(dir, "race"),
		"GOTRACEBACK=all",
	)
	cmd.Env = append(cmd.Env, s.Env...)
	limit := s.Timeout
	if limit == 0 {
		limit = 120 * time.Second
	}
	if thorough {
		limit *= 6
	}
	r := &result{s: s, n: map[string]int64{}}
	if err := cmd.Start(); err != nil {
		r.inconc = append(r.inconc, err.Error())
		return r
	}
	timer := time.AfterFunc(limit, func() {
		syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
		time.Sleep(3 * time.Second)
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	err := cmd.Wait()
	timedOut := !timer.Stop()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	lf.Close()
	r.wall = time.Since(begin)

	stage := ""
	if f, e := os.Open(outFile); e == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 64<<20)
		for sc.Scan() {
			var rec record
			if json.Unmarshal(sc.Bytes(), &rec) != nil {
				continue
			}
			switch rec.Kind {
			case "violation":
				r.violations = append(r.violations, rec)
			case "finding":
				r.findings = append(r.findings, rec)
			case "inconclusive":
				r.inconc = append(r.inconc, rec.Text)
			case "sample":
				r.samples = append(r.samples, rec.Text)
			case "stage":
				stage = rec.Text
			case "note":
				r.notes = append(r.notes, rec.Text)
			case "done":
				r.done, r.n, r.cases, r.keys = true, rec.N, rec.Case, rec.Keys
			}
		}
		f.Close()
	}
	b, _ := os.ReadFile(logFile)
	r.log = string(b)
	files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	for _, f := range files {
		b, _ := os.ReadFile(f)
		r.races = append(r.races, splitRaces(string(b))...)
	}
	if !r.done {
		switch {
		case timedOut:
			r.inconc = append(r.inconc, fmt.Sprintf("ran out of its time (%s)", limit))
			r.hang = hung(r.log)
		default:
			where, isLib := attribute(r.log)
			if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL && stage != "" {
				isLib, where = true, "killed for lack of memory: "+stage
			}
			if strings.Contains(where, "out of memory") && stage != "" {
				isLib = true
			}
			if isLib {
				r.violations = append(r.violations, record{Kind: "violation", Key: "crash",
					Text: "the library crashed the process: " + where + "\n" + tail(r.log, 4000)})
			} else {
				r.inconc = append(r.inconc, fmt.Sprintf("the harness crashed (%v): %s\n%s", err, where, tail(r.log, 3000)))
			}
		}
	}
	return r
}

func tail(s string, n int) string {
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "fatal error:"); i >= 0 {
		s = s[i:]
	}
	if len(s) > n {
		s = s[:n]
	}
	return s
}

// hung returns the stack of the scenario's own goroutine if it has been waiting inside the library for a minute.
func hung(log string) string {
	for _, g := range strings.Split(log, "\n\n") {
		if strings.Contains(g, "core.runChild") && strings.Contains(g, "\n"+lib) && strings.Contains(g, " minutes]") {
			return clip(g, 4000)
		}
	}
	return ""
}

var running = regexp.MustCompile(`(?m)^goroutine \d+ (gp=\S+ m=\S+ (mp=\S+ )?)?\[[^\]]*\]:$`)

// attribute finds out whose code made the process crash: the first frame of the crashing goroutine which is neither of
// the runtime nor of the standard library.
func attribute(log string) (string, bool) {
	head := ""
	if i := strings.Index(log, "panic: "); i >= 0 {
		log = log[i:]
	} else if i := strings.Index(log, "fatal error: "); i >= 0 {
		log = log[i:]
	} else {
		return "no panic in the log", false
	}
	head, _, _ = strings.Cut(log, "\n")
	loc := running.FindStringIndex(log)
	if loc == nil {
		return head, false
	}
	g, _, _ := strings.Cut(log[loc[1]:], "\n\n")
	for _, line := range strings.Split(g, "\n") {
		if strings.HasPrefix(line, "\t") || line == "" {
			continue
		}
		line = strings.TrimPrefix(line, "created by ")
		if strings.HasPrefix(line, lib) {
			return head + " in " + line, true
		}
		if strings.HasPrefix(line, "verif.test/") || strings.HasPrefix(line, "main.") {
			return head + " in " + line, false
		}
	}
	return head, false
}

func splitRaces(s string) []string {
	var l []string
	for _, p := range strings.Split(s, "==================") {
		if strings.Contains(p, "WARNING: DATA RACE") {
			l = append(l, strings.TrimSpace(p))
		}
	}
	return l
}

// libRace reports whether one of the two conflicting accesses is the library's own, and names the two sites.
func libRace(rep string) (string, bool) {
	var tops []string
	isLib := false
	for _, block := range strings.Split(rep, "\n\n") {
		first, rest, _ := strings.Cut(strings.TrimPrefix(block, "WARNING: DATA RACE\n"), "\n")
		if !strings.Contains(first, " at 0x") || !(strings.HasPrefix(first, "Read") || strings.HasPrefix(first, "Write") ||
			strings.HasPrefix(first, "Previous") || strings.HasPrefix(first, "Atomic")) {
			continue
		}
		lines := strings.Split(rest, "\n")
		for i := 0; i < len(lines); i++ {
			l := strings.TrimSpace(lines[i])
			if strings.HasPrefix(l, lib) {
				isLib = true
				at := ""
				if i+1 < len(lines) {
					at = strings.Fields(strings.TrimSpace(lines[i+1]))[0]
				}
				tops = append(tops, l+" "+at)
				break
			}
			if strings.HasPrefix(l, "verif.test/") || strings.HasPrefix(l, "main.") {
				tops = append(tops, l)
				break
			}
		}
	}
	sort.Strings(tops)
	return strings.Join(tops, " <-> "), isLib
}

type known struct{ property, key, text string }

func knownFindings() []known {
	b, _ := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	var l []known
	for _, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "finding: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(line, "finding: "), " ", 3)
		if len(f) < 3 {
			continue
		}
		l = append(l, known{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "key="), f[2]})
	}
	return l
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func report(c *Check, results []*result, start time.Time, thorough, partial bool) int {
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	var seed int64
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)

	counters := map[string]int64{}
	inject := map[string]int64{}
	keys := map[uint64]struct{}{}
	var cases int64
	var samples []string
	scen := map[string]any{}
	var violations []string
	var inconc []string
	races, libRaces := 0, 0
	knownSeen := map[string]bool{}
	kf := knownFindings()

	replay := filepath.Join(verifDir(), "evidence", "replay")
	os.MkdirAll(replay, 0o755)
	writeReplay := func(r *result, kind, text string) string {
		p := filepath.Join(replay, fmt.Sprintf("%s-%s-%s.txt", c.ID, r.s.Name, sanitize(kind)))
		body := fmt.Sprintf("property: %s\nscenario: %s\nkind: %s\nseed: %d\ntier: %s\nreplay: VERIF_SEED=%d VERIF_TIER=%s %s/check.sh %s %s\n\n%s\n",
			c.ID, r.s.Name, kind, seed, tier, seed, tier, verifDir(), c.ID, r.s.Name, text)
		os.WriteFile(p, []byte(body), 0o644)
		return p
	}
	if !partial {
		old, _ := filepath.Glob(filepath.Join(replay, c.ID+"-*.txt"))
		for _, f := range old {
			os.Remove(f)
		}
	}

	for _, r := range results {
		for k, v := range r.n {
			if strings.HasPrefix(k, "~") {
				if k == "~sites" && v < inject[k[1:]] {
					continue
				}
				if k == "~sites" {
					inject["sites"] = v
				} else {
					inject[k[1:]] += v
				}
				continue
			}
			counters[k] += v
		}
		for _, k := range r.keys {
			keys[k^hash(r.s.Name)] = struct{}{}
		}
		cases += r.cases
		for _, s := range r.samples {
			if len(samples) < 12 {
				samples = append(samples, r.s.Name+": "+s)
			}
		}
		scen[r.s.Name] = map[string]any{"cases": r.cases, "distinct": len(r.keys), "wall_s": round(r.wall.Seconds())}
		for _, v := range r.violations {
			p := writeReplay(r, v.Key, v.Text+"\n\n--- log ---\n"+clip(r.log, 20000))
			line, _, _ := strings.Cut(v.Text, "\n")
			fmt.Printf("%s/%s: %s: %s\n", c.ID, r.s.Name, v.Key, line)
			violations = append(violations, p)
		}
		for _, f := range r.findings {
			listed := false
			for _, k := range kf {
				if k.property == c.ID && k.key == f.Key {
					listed = true
					if !knownSeen[f.Key] {
						fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.ID, k.text, f.Key)
					}
					knownSeen[f.Key] = true
				}
			}
			if !listed {
				p := writeReplay(r, f.Key, f.Text)
				line, _, _ := strings.Cut(f.Text, "\n")
				fmt.Printf("%s/%s: %s: %s\n", c.ID, r.s.Name, f.Key, line)
				violations = append(violations, p)
			}
		}
		races += len(r.races)
		if c.ID == "C29" {
			seen := map[string]bool{}
			for _, rep := range r.races {
				sites, isLib := libRace(rep)
				if !isLib {
					inconc = append(inconc, "data race inside the harness: "+clip(rep, 1500))
					continue
				}
				libRaces++
				if seen[sites] {
					continue
				}
				seen[sites] = true
				p := writeReplay(r, fmt.Sprintf("race%d", len(seen)), rep)
				fmt.Printf("%s/%s: data race: %s\n", c.ID, r.s.Name, sites)
				violations = append(violations, p)
			}
		}
		for _, x := range r.inconc {
			inconc = append(inconc, r.s.Name+": "+x)
		}
		for _, x := range r.notes {
			fmt.Printf("note: %s/%s: %s\n", c.ID, r.s.Name, x)
		}
	}

	if !partial {
		if samples == nil {
			samples = []string{}
		}
		cov := map[string]any{
			"evaluations":         cases,
			"distinct_nontrivial": len(keys),
			"rule":                c.Rule,
			"samples":             samples,
			"events":              counters,
			"perturbation":        inject,
			"scenarios":           scen,
			"race_reports":        races,
			"inconclusive":        len(inconc),
			"known_findings_seen": sortedKeys(knownSeen),
		}
		if c.ID == "C29" {
			cov["library_race_reports"] = libRaces
		}
		ev := map[string]any{
			"property": c.ID, "tier": tier, "seed": seed, "level": "exploration",
			"coverage": cov, "assumptions": c.Assumptions,
			"wall_s": round(time.Since(start).Seconds()), "violations": len(violations),
		}
		if c.Assumptions == nil {
			ev["assumptions"] = []string{}
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(verifDir(), "evidence", c.ID+".json"), append(b, '\n'), 0o644)
	}
	if len(violations) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, violations[0])
		return 1
	}
	if len(inconc) > 0 {
		for _, x := range inconc {
			fmt.Printf("INCONCLUSIVE %s: %s\n", c.ID, x)
		}
		return 3
	}
	fmt.Printf("held: %s, %d cases (%d distinct), %.1f s\n", c.ID, cases, len(keys), time.Since(start).Seconds())
	return 0
}

func sortedKeys(m map[string]bool) []string {
	l := []string{}
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '_'
	}, s)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }
