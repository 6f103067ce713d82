package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- known findings

type knownFinding struct {
	Property, Class, Replay, What string
}

var knownFindings []knownFinding

var knownRe = regexp.MustCompile(`^known: property=(\S+) class=(\S+) replay=(\S+) (.*)$`)

// loadKnown reads the recorded findings of prop; "fixed:" lines suppress nothing.
func loadKnown(root, prop string) {
	knownFindings = nil
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if m := knownRe.FindStringSubmatch(l); m != nil && m[1] == prop {
			knownFindings = append(knownFindings, knownFinding{m[1], m[2], m[3], m[4]})
		}
	}
}

func knownClass(class, msg string) (string, bool) {
	for _, k := range knownFindings {
		if k.Class == class && k.Property == curProp {
			return k.What, true
		}
	}
	return "", false
}

// ---------------------------------------------------------------- worker

type runLine struct {
	I     int            `json:"i"`
	Start bool           `json:"start,omitempty"`
	Next  int            `json:"next,omitempty"`
	Hash  uint64         `json:"h,omitempty"`
	Inter uint64         `json:"n,omitempty"`
	Steps int            `json:"s,omitempty"`
	SimNs int64          `json:"t,omitempty"`
	Non   bool           `json:"nt,omitempty"`
	Trunc bool           `json:"tr,omitempty"`
	Why   string         `json:"why,omitempty"`
	Inj   map[string]int `json:"inj,omitempty"`
	Prb   map[string]int `json:"prb,omitempty"`
	Viol  *Violation     `json:"viol,omitempty"`
	Known []*Violation   `json:"known,omitempty"`
	Panic string         `json:"panic,omitempty"`
	Ch    *Choices       `json:"ch,omitempty"`
	Done  bool           `json:"done,omitempty"`
	From  int            `json:"-"` // first run of its worker
}

func heapMB() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc >> 20
}

func worker(prop string, seed uint64, first, step, maxRuns int, secs float64) {
	sc := scenarioFor(prop)
	t0 := time.Now()
	i := first
	for n := 0; n < maxRuns; n++ {
		if secs > 0 && time.Since(t0).Seconds() > secs {
			out(runLine{I: i, Done: true, Next: i})
			return
		}
		out(runLine{I: i, Start: true})
		r := runOne(sc, prop, runSeed(seed, prop, i), nil, false)
		l := runLine{I: i, Hash: r.Hash, Inter: r.Inter, Steps: r.Steps, SimNs: r.SimNs, Non: r.Nontriv, Trunc: r.Truncated, Why: r.Why,
			Inj: r.Injected, Prb: r.Probes, Viol: r.Viol, Known: r.Known, Panic: r.Panic}
		if r.Viol != nil || len(r.Known) > 0 {
			l.Ch = &r.Ch
		}
		out(l)
		i += step
		if r.Panic != "" {
			return
		}
		if n%8 == 7 && heapMB() > 400 {
			runtime.GC()
			debug.FreeOSMemory()
			if heapMB() > 600 {
				break
			}
		}
	}
	out(runLine{I: i, Next: i})
}

// ---------------------------------------------------------------- replay files

type Replay struct {
	Property string   `json:"property"`
	Class    string   `json:"class"`
	Message  string   `json:"message"`
	Scenario string   `json:"scenario"`
	Seed     uint64   `json:"seed"` // fixes goroutine identities and library randomness
	Run      string   `json:"run"`
	Hash     string   `json:"hash"` // of the event log of the run
	Choices  *Choices `json:"choices,omitempty"`
	Note     string   `json:"note,omitempty"`
	Panic    string   `json:"panic,omitempty"`
	Trace    []string `json:"trace,omitempty"`
	// runs to be made first in the same process, where the failure needs state that
	// the code under test keeps in package-level variables
	Before *Before `json:"before,omitempty"`
}

type Before struct {
	Seed  uint64 `json:"seed"`
	First int    `json:"first"`
	Step  int    `json:"step"`
	Count int    `json:"count"`
}

func (b *Before) run(sc *Scenario, prop string) {
	if b == nil {
		return
	}
	for k := 0; k < b.Count; k++ {
		runOne(sc, prop, runSeed(b.Seed, prop, b.First+k*b.Step), nil, false)
		if k%8 == 7 && heapMB() > 400 {
			runtime.GC()
			debug.FreeOSMemory()
		}
	}
}

// withBefore looks for the least number of preceding runs of the same worker with
// which ok accepts the replay of path.
func withBefore(rp *Replay, path string, seed uint64, l *runLine, ok func() bool) bool {
	if l.From < 0 || l.I < l.From {
		return false
	}
	n := (l.I - l.From) / workers
	for c := 1; n > 0; c *= 4 {
		c = min(c, n)
		rp.Before = &Before{Seed: seed, First: l.I - c*workers, Step: workers, Count: c}
		writeReplay(path, rp)
		if ok() {
			return true
		}
		if c == n {
			break
		}
	}
	rp.Before = nil
	return false
}

func readReplay(path string) *Replay {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(realStderr, err)
		os.Exit(2)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(realStderr, err)
		os.Exit(2)
	}
	return &r
}

func writeReplay(path string, r *Replay) {
	b, _ := json.MarshalIndent(r, "", " ")
	// keep the choice arrays on one line each
	b = regexp.MustCompile(`\n\s+(\d+,?)`).ReplaceAll(b, []byte("$1"))
	os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(realStderr, err)
		os.Exit(2)
	}
}

// replay re-executes one replay file. Exit 1 and a VIOLATION (or KNOWN-FINDING)
// line if the recorded violation happens again.
func replay(path string, trace bool, root string) {
	rp := readReplay(path)
	loadKnown(root, rp.Property)
	sc := scenarioFor(rp.Property)
	rp.Before.run(sc, rp.Property)
	r := runOne(sc, rp.Property, rp.Seed, rp.Choices, trace)
	if trace {
		fmt.Fprintln(realStdout, strings.Join(r.Trace, "\n"))
	}
	res := map[string]any{"hash": fmt.Sprintf("%016x", r.Hash), "viol": r.Viol, "known": r.Known, "panic": r.Panic}
	b, _ := json.Marshal(res)
	fmt.Fprintf(realStdout, "RESULT %s\n", b)
	if r.Panic != "" {
		os.Exit(2)
	}
	if r.Viol != nil {
		fmt.Fprintf(realStdout, "VIOLATION property=%s replay=%s %s: %s\n", rp.Property, path, r.Viol.Class, r.Viol.Msg)
		os.Exit(1)
	}
	os.Exit(0)
}

// ---------------------------------------------------------------- shrinking

func hit(r *RunResult, class string) bool {
	if r.Panic != "" {
		return false
	}
	if r.Viol != nil && r.Viol.Class == class {
		return true
	}
	for _, k := range r.Known {
		if k.Class == class {
			return true
		}
	}
	return false
}

// shrink reduces the recorded choices while the same violation class remains.
func shrink(in, outF string, secs float64) {
	rp := readReplay(in)
	sc := scenarioFor(rp.Property)
	end := time.Now().Add(time.Duration(secs * float64(time.Second)))
	runs := 0
	best := *rp.Choices
	try := func(c Choices) bool {
		if time.Now().After(end) {
			return false
		}
		runs++
		if runs%16 == 15 && heapMB() > 400 {
			runtime.GC()
		}
		r := runOne(sc, rp.Property, rp.Seed, &c, false)
		if hit(r, rp.Class) {
			best = r.Ch
			return true
		}
		return false
	}
	save := func() {
		r := runOne(sc, rp.Property, rp.Seed, &best, true)
		if !hit(r, rp.Class) {
			return
		}
		rp.Choices = &best
		rp.Hash = fmt.Sprintf("%016x", r.Hash)
		rp.Trace = r.Trace
		if r.Viol != nil {
			rp.Message = r.Viol.Msg
		} else if len(r.Known) > 0 {
			rp.Message = r.Known[0].Msg
		}
		writeReplay(outF, rp)
	}
	save()
	get := func(c *Choices, k int) *[]uint32 {
		switch k {
		case 0:
			return &c.F
		case 1:
			return &c.S
		}
		return &c.W
	}
	for round := 0; round < 3; round++ {
		before := cost(best)
		for k := 0; k < 3; k++ {
			// drop the whole stream, then tails
			for frac := 0; frac < 8; frac++ {
				c := best
				l := *get(&best, k)
				keep := 0
				if frac > 0 {
					keep = len(l) - len(l)>>uint(frac)
				}
				if keep == len(l) {
					break
				}
				*get(&c, k) = l[:keep]
				if try(c) && keep == 0 {
					break
				}
			}
			// zero or delete chunks
			for size := max(1, len(*get(&best, k))/2); size >= 1; size /= 2 {
				n := 0
				for at := 0; at < len(*get(&best, k)); at += size {
					l := *get(&best, k)
					hi := min(at+size, len(l))
					nz := false
					for _, v := range l[at:hi] {
						nz = nz || v != 0
					}
					if n++; n > 60 || time.Now().After(end) {
						break
					}
					if nz {
						c := best
						z := append([]uint32(nil), l...)
						for j := at; j < hi; j++ {
							z[j] = 0
						}
						*get(&c, k) = z
						if try(c) {
							continue
						}
					}
					if k == 0 || size > 1 {
						c := best
						*get(&c, k) = append(append([]uint32(nil), l[:at]...), l[hi:]...)
						try(c)
					}
				}
			}
			save()
		}
		if cost(best) >= before || time.Now().After(end) {
			break
		}
	}
	save()
	fmt.Fprintf(realStderr, "shrink: %d runs\n", runs)
}

func cost(c Choices) int {
	n := 0
	for _, l := range [][]uint32{c.W, c.S, c.F} {
		n += len(l)
		for _, v := range l {
			if v != 0 {
				n += 2
			}
		}
	}
	return n
}

// ---------------------------------------------------------------- orchestrator

type stats struct {
	runs, nontriv, trunc int
	steps                int64
	simNs                int64
	inter                map[uint64]struct{}
	interNon             map[uint64]struct{}
	inj, prb, why        map[string]int
	hashes               map[int]uint64
	known                map[string]*runLine
	samples              []map[string]any
}

type failure struct {
	line  *runLine
	crash string // stderr of a worker that died
	hang  bool
}

const workers = 8
const hangAfter time.Duration = 100 * time.Second

func selfCmd(args ...string) *exec.Cmd {
	c := exec.Command(os.Args[0], args...)
	c.Env = append(os.Environ(), "GOTRACEBACK=all", "GOMEMLIMIT=off")
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	return c
}

type tailBuf struct {
	mu   sync.Mutex
	head []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	if len(t.head) < 200000 {
		t.head = append(t.head, p...)
	}
	t.mu.Unlock()
	return len(p), nil
}

// runWorker runs one worker process and feeds its lines to sink; it returns the
// index to continue from, or the failure that ended it.
func runWorker(args []string, stop <-chan struct{}, sink func(*runLine) bool) (next int, done bool, f *failure, err error) {
	pr, pw, err := os.Pipe()
	if err != nil {
		return 0, true, nil, err
	}
	c := selfCmd(args...)
	tb := &tailBuf{}
	c.Stderr = tb
	c.ExtraFiles = []*os.File{pw}
	if err := c.Start(); err != nil {
		return 0, true, nil, err
	}
	pw.Close()
	lines := make(chan *runLine, 64)
	go func() {
		rd := bufio.NewReaderSize(pr, 1<<20)
		for {
			b, err := rd.ReadBytes('\n')
			if err != nil {
				close(lines)
				return
			}
			var l runLine
			if json.Unmarshal(b, &l) == nil {
				lines <- &l
			}
		}
	}()
	kill := func() {
		c.Process.Kill()
		c.Wait()
		pr.Close()
		go func() {
			for range lines {
			}
		}()
	}
	cur := -1
	ended := false
	for {
		t := time.NewTimer(hangAfter)
		select {
		case <-stop:
			t.Stop()
			kill()
			return 0, true, nil, nil
		case <-t.C:
			c.Process.Signal(syscall.SIGQUIT)
			time.Sleep(2 * time.Second)
			kill()
			return 0, true, &failure{line: &runLine{I: cur}, crash: string(tb.head), hang: true}, nil
		case l, ok := <-lines:
			t.Stop()
			if !ok {
				werr := c.Wait()
				pr.Close()
				if ended {
					return next, done, nil, nil
				}
				return 0, true, &failure{line: &runLine{I: cur}, crash: fmt.Sprintf("%v\n%s", werr, tb.head)}, nil
			}
			switch {
			case l.Start:
				cur = l.I
			case l.Next > 0 || l.Done:
				ended, next, done = true, l.Next, l.Done
			case l.Panic != "":
				kill()
				return 0, true, &failure{line: l, crash: l.Panic}, nil
			default:
				if !sink(l) {
					kill()
					return 0, true, nil, nil
				}
			}
		}
	}
}

type search struct {
	prop, root string
	seed       uint64
	mu         sync.Mutex
	st         stats
	viols      []*runLine
	fails      []*failure
	errs       []error
	stop       chan struct{}
	once       sync.Once
}

func (s *search) halt() { s.once.Do(func() { close(s.stop) }) }

func (s *search) sink(l *runLine) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	st := &s.st
	st.runs++
	st.steps += int64(l.Steps)
	st.simNs += l.SimNs
	st.inter[l.Inter] = struct{}{}
	if l.Non {
		st.nontriv++
		st.interNon[l.Inter] = struct{}{}
	}
	if l.Trunc {
		st.trunc++
	}
	for k, v := range l.Inj {
		st.inj[k] += v
	}
	for k, v := range l.Prb {
		st.prb[k] += v
	}
	st.why[l.Why]++
	st.hashes[l.I] = l.Hash
	if len(st.samples) < 6 && l.Non {
		st.samples = append(st.samples, map[string]any{"run": l.I, "seed": fmt.Sprint(runSeed(s.seed, s.prop, l.I)),
			"event_log_hash": fmt.Sprintf("%016x", l.Hash), "scheduler_steps": l.Steps, "simulated_s": float64(l.SimNs) / 1e9, "faults": l.Inj, "reached": l.Prb, "ended": l.Why})
	}
	for _, k := range l.Known {
		if st.known[k.Class] == nil {
			st.known[k.Class] = l
		}
	}
	if l.Viol != nil {
		s.viols = append(s.viols, l)
		s.halt()
		return false
	}
	return true
}

func (s *search) run(secs float64, minRuns int) {
	t0 := time.Now()
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			next := k
			for {
				select {
				case <-s.stop:
					return
				default:
				}
				left := secs - time.Since(t0).Seconds()
				s.mu.Lock()
				short := s.st.runs < minRuns
				s.mu.Unlock()
				if left <= 0.5 {
					if !short || time.Since(t0).Seconds() > secs*4+120 {
						return
					}
					left = 5
				}
				from := next
				sink := func(l *runLine) bool { l.From = from; return s.sink(l) }
				n, _, f, err := runWorker([]string{"worker", "-prop", s.prop, "-seed", fmt.Sprint(s.seed), "-root", s.root,
					"-first", fmt.Sprint(next), "-step", fmt.Sprint(workers), "-secs", fmt.Sprint(left)}, s.stop, sink)
				if err != nil {
					s.mu.Lock()
					s.errs = append(s.errs, err)
					s.mu.Unlock()
					s.halt()
					return
				}
				if f != nil {
					f.line.From = from
					s.mu.Lock()
					s.fails = append(s.fails, f)
					s.mu.Unlock()
					s.halt()
					return
				}
				select {
				case <-s.stop:
					return
				default:
				}
				next = n
			}
		}()
	}
	wg.Wait()
}

type replayOut struct {
	Hash  string       `json:"hash"`
	Viol  *Violation   `json:"viol"`
	Known []*Violation `json:"known"`
	Panic string       `json:"panic"`
}

// replayOnce runs a replay file in a fresh process.
func replayOnce(root, path string) (*replayOut, string) {
	c := selfCmd("replay", "-root", root, "-in", path)
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	limit := hangAfter
	if b, _ := os.ReadFile(path); bytes.Contains(b, []byte(`"before"`)) {
		limit *= 3
	}
	done := make(chan error, 1)
	if err := c.Start(); err != nil {
		return nil, err.Error()
	}
	go func() { done <- c.Wait() }()
	select {
	case <-done:
	case <-time.After(limit):
		c.Process.Signal(syscall.SIGQUIT)
		time.Sleep(time.Second)
		c.Process.Kill()
		<-done
		return nil, "hang\n" + se.String()
	}
	for _, l := range strings.Split(so.String(), "\n") {
		if strings.HasPrefix(l, "RESULT ") {
			var r replayOut
			if json.Unmarshal([]byte(l[7:]), &r) == nil {
				return &r, se.String()
			}
		}
	}
	return nil, se.String()
}

var frameRe = regexp.MustCompile(`github\.com/bytedance/dddfirework[^\s(]*`)

// repoFrame returns the innermost frame of the code under test in the stack of the
// goroutine that failed; "" if the failure is the simulator's own.
func repoFrame(stack string) string {
	if strings.Contains(stack, "simdb: unsupported") || strings.Contains(stack, "out of memory") {
		return ""
	}
	i := strings.Index(stack, "panic:")
	if i < 0 {
		i = strings.Index(stack, "fatal error:")
	}
	if i >= 0 {
		stack = stack[i:]
	}
	intended := strings.Contains(strings.SplitN(stack, "\n", 2)[0], "business panic")
	// only the failing goroutine's stack
	if j := strings.Index(stack, "[running"); j >= 0 {
		stack = stack[j:]
	}
	if j := strings.Index(stack, "\n\n"); j >= 0 {
		stack = stack[:j]
	}
	// a panic that was recovered and raised again on the way: its origin is last
	if j := strings.LastIndex(stack, "\npanic("); j >= 0 {
		stack = stack[j+1:]
	}
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "\t") || l == "" {
			continue
		}
		if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "vsim/") {
			if !intended {
				return ""
			}
			continue
		}
		if f := frameRe.FindString(l); f != "" && strings.HasPrefix(l, f) {
			return f
		}
	}
	return ""
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '_'
	}, s)
}

func check(prop, tier string, seed uint64, secs float64, minRuns int, root string) int {
	t0 := time.Now()
	if secs == 0 {
		secs = 30
		if n := scenarioFor(prop).Name; n == "bus" || n == "flow" {
			secs = 45 // long runs
		}
		if tier == "thorough" {
			secs = 780
		}
	}
	loadKnown(root, prop)
	sc := scenarioFor(prop)
	s := &search{prop: prop, root: root, seed: seed, stop: make(chan struct{})}
	s.st = stats{inter: map[uint64]struct{}{}, interNon: map[uint64]struct{}{}, inj: map[string]int{}, prb: map[string]int{}, why: map[string]int{}, hashes: map[int]uint64{}, known: map[string]*runLine{}}
	s.run(secs, minRuns)
	searchS := time.Since(t0).Seconds()

	code, violations := 0, 0
	repDir := filepath.Join(root, "replays")
	report := func(rp *Replay, path string) {
		violations++
		fmt.Printf("%s: %s\n", rp.Class, rp.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		code = 1
	}

	// violations: minimise, then replay twice in fresh processes
	for _, l := range s.viols {
		if code == 1 {
			break
		}
		rs := runSeed(seed, prop, l.I)
		path := filepath.Join(repDir, fmt.Sprintf("%s-%s-%d-%d.json", prop, sanitize(strings.TrimPrefix(l.Viol.Class, prop+":")), seed, l.I))
		rp := &Replay{Property: prop, Class: l.Viol.Class, Message: l.Viol.Msg, Scenario: sc.Name, Seed: rs, Run: fmt.Sprintf("VERIF_SEED=%d run=%d", seed, l.I), Hash: fmt.Sprintf("%016x", l.Hash), Choices: l.Ch}
		writeReplay(path, rp)
		c := selfCmd("shrink", "-prop", prop, "-root", root, "-in", path, "-out", path+".min", "-secs", "25")
		err := c.Run()
		if _, e := os.Stat(path + ".min"); e == nil {
			m := readReplay(path + ".min")
			ok := true
			for i := 0; i < 2; i++ {
				r, _ := replayOnce(root, path+".min")
				ok = ok && r != nil && r.Viol != nil && r.Viol.Class == m.Class && r.Hash == m.Hash
			}
			if ok {
				os.Rename(path+".min", path)
				report(m, path)
				continue
			}
		}
		os.Remove(path + ".min")
		_ = err
		var r *replayOut
		var msg string
		again := func() bool {
			r, msg = replayOnce(root, path)
			if r == nil || r.Viol == nil || r.Viol.Class != rp.Class {
				return false
			}
			r2, _ := replayOnce(root, path)
			if r2 == nil || r2.Viol == nil || r2.Viol.Class != rp.Class {
				return false
			}
			if r2.Hash != r.Hash {
				rp.Note = "the event log differs between two executions: the code reads something of the process that is not simulated; "
			}
			return true
		}
		if again() || withBefore(rp, path, seed, l, again) {
			rp.Hash, rp.Message = r.Hash, r.Viol.Msg
			rp.Note += "not minimised"
			if rp.Before != nil {
				rp.Note += ": it needs what earlier commands of the same process left behind"
			}
			writeReplay(path, rp)
			report(rp, path)
			continue
		}
		fmt.Fprintf(os.Stderr, "error: run %d reported %s (%s) but its replay does not: %v %s\n", l.I, l.Viol.Class, l.Viol.Msg, r, msg)
		code = 2
	}
	// crashes and hangs of the code under test
	for _, f := range s.fails {
		if code == 1 {
			break
		}
		rs := runSeed(seed, prop, f.line.I)
		kind := "panic"
		if f.hang {
			kind = "hang"
		}
		path := filepath.Join(repDir, fmt.Sprintf("%s-%s-%d-%d.json", prop, kind, seed, f.line.I))
		frame := repoFrame(f.crash)
		rp := &Replay{Property: prop, Class: prop + ":" + kind, Scenario: sc.Name, Seed: rs, Run: fmt.Sprintf("VERIF_SEED=%d run=%d", seed, f.line.I), Note: "not minimised: the process ends"}
		first := f.crash
		if len(first) > 6000 {
			first = first[:6000]
		}
		rp.Panic = first
		if f.line.I < 0 || frame == "" {
			fmt.Fprintf(os.Stderr, "error: worker ended in run %d without a frame of the code under test:\n%s\n", f.line.I, first)
			code = 2
			continue
		}
		rp.Message = fmt.Sprintf("the process ends by a %s in %s", kind, frame)
		writeReplay(path, rp)
		got := ""
		again := func() bool {
			if r, msg := replayOnce(root, path); r == nil {
				got = repoFrame(msg)
			} else {
				got = repoFrame(r.Panic)
			}
			return got == frame
		}
		if !again() && !withBefore(rp, path, seed, f.line, again) {
			fmt.Fprintf(os.Stderr, "error: worker ended in run %d (%s) but the replay does not (%q):\n%s\n", f.line.I, frame, got, first)
			code = 2
			continue
		}
		writeReplay(path, rp)
		report(rp, path)
	}
	for _, e := range s.errs {
		fmt.Fprintln(os.Stderr, "error:", e)
		if code == 0 {
			code = 2
		}
	}

	// recorded findings are shown again from their committed replay files
	if code == 0 {
		for _, k := range knownFindings {
			path := filepath.Join(root, k.Replay)
			ok := s.st.known[k.Class] != nil
			if _, err := os.Stat(path); err == nil && !ok {
				r, _ := replayOnce(root, path)
				if r != nil {
					for _, x := range r.Known {
						ok = ok || x.Class == k.Class
					}
				}
			}
			if ok {
				fmt.Printf("KNOWN-FINDING: property=%s class=%s %s\n", prop, k.Class, k.What)
			}
		}
	}

	// a sample of the runs again, in another process and another order
	detN, detBad := 0, 0
	if code == 0 {
		var idx []int
		for i := range s.st.hashes {
			idx = append(idx, i)
		}
		sort.Ints(idx)
		if len(idx) > 24 {
			idx = idx[:24]
		}
		for k := 0; k < len(idx); k += 12 {
			runWorker([]string{"worker", "-prop", prop, "-seed", fmt.Sprint(seed), "-root", root, "-first", fmt.Sprint(idx[k]), "-step", "1", "-max", "3"}, make(chan struct{}), func(l *runLine) bool {
				if h, ok := s.st.hashes[l.I]; ok {
					detN++
					if h != l.Hash {
						detBad++
						fmt.Fprintf(os.Stderr, "warning: run %d is not repeatable: %016x then %016x\n", l.I, h, l.Hash)
					}
				}
				return true
			})
		}
	}

	wall := time.Since(t0).Seconds()
	st := &s.st
	cov := map[string]any{
		"evaluations":         st.runs,
		"distinct_nontrivial": len(st.interNon),
		"rule": "one evaluation is one simulated run: a seed draws the workload, every scheduling choice and the faults. A run is non-trivial if the scheduler " +
			"had at least one choice between several runnable operations; two runs are distinct if their sequences of released operations (kind, node, command) differ.",
		"samples":                 st.samples,
		"runs_per_hour":           int(float64(st.runs) / searchS * 3600),
		"seeds_per_hour":          int(float64(st.runs) / searchS * 3600),
		"simulated_hours":         float64(st.simNs) / 3.6e12,
		"scheduler_steps":         st.steps,
		"distinct_interleavings":  len(st.inter),
		"faults_injected":         st.inj,
		"reached":                 st.prb,
		"run_endings":             st.why,
		"runs_cut_at_step_limit":  st.trunc,
		"repeatability_rechecked": detN,
		"repeatability_mismatch":  detBad,
		"real_components":         sc.realParts(),
		"stub_components":         sc.stubParts(),
		"search_seconds":          searchS,
		"known_finding_hits":      len(st.known),
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": violations,
		"assumptions": sc.assumptions()}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if code == 0 && st.runs == 0 {
		fmt.Fprintln(os.Stderr, "error: no run was completed")
		code = 2
	}
	fmt.Printf("%s %s: %d runs (%d distinct interleavings), %.1f simulated hours, %d faults, %.0f s, exit %d\n", prop, tier, st.runs, len(st.inter), float64(st.simNs)/3.6e12, total(st.inj), wall, code)
	return code
}

func total(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

var _ io.Writer = (*tailBuf)(nil)
