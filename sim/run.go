package main

import (
	"bytes"
	crand "crypto/rand"
	"fmt"
	"runtime"
	"runtime/debug"
	"time"
	_ "unsafe"

	boot "a.boot"

	"github.com/rs/xid"

	"vsim/simdb"
)

//go:linkname xidCounter github.com/rs/xid.objectIDCounter
var xidCounter uint32

//go:linkname xidPid github.com/rs/xid.pid
var xidPid int

//go:linkname xidMachine github.com/rs/xid.machineID
var xidMachine []byte

var _ = xid.New

//go:linkname poolCleanup sync.poolCleanup
func poolCleanup()

type detReader struct{ s uint64 }

func (d *detReader) Read(p []byte) (int, error) {
	for i := range p {
		d.s = splitmix(d.s)
		p[i] = byte(d.s >> 24)
	}
	return len(p), nil
}

// Scenario is one simulated system with its workload and oracles.
type Scenario struct {
	Name               string
	Setup              func(w *World) // on the root goroutine; creates tables, nodes, workload
	Final              func(w *World) // checks over the recorded history
	Limit              time.Duration
	Real, Stub, Assume []string
	Steps              int
}

type Choices struct {
	W []uint32 `json:"workload"`
	S []uint32 `json:"schedule"`
	F []uint32 `json:"faults"`
}

type RunResult struct {
	Seed      uint64
	Hash      uint64
	Inter     uint64
	Steps     int
	SimNs     int64
	Viol      *Violation
	Known     []*Violation
	Ch        Choices
	Injected  map[string]int
	Probes    map[string]int
	Truncated bool
	Nontriv   bool
	Trace     []string
	Why       string
	Panic     string
}

var runCounter uint64
var curProp string

// runOne executes one simulation. seed fixes goroutine identities; the three
// choice streams come from seed unless ch is given.
func runOne(sc *Scenario, prop string, seed uint64, ch *Choices, trace bool) *RunResult {
	runCounter++
	// whatever earlier runs left in a sync.Pool is gone; nothing runs here now
	poolCleanup()
	poolCleanup()
	w := &World{runID: runCounter, trace: trace, injected: map[string]int{}, probes: map[string]int{},
		openTxs: map[*conn]struct{}{}}
	if ch != nil {
		w.W, w.S, w.F = newStream(0, ch.W, true), newStream(0, ch.S, true), newStream(0, ch.F, true)
	} else {
		w.W, w.S, w.F = newStream(seed^0x57, nil, false), newStream(seed^0x53, nil, false), newStream(seed^0x46, nil, false)
	}
	curW, curProp = w, prop
	xidCounter, xidPid, xidMachine = 1000, 77, []byte{1, 2, 3}
	crand.Reader = &detReader{seed}
	for i := uint64(0); i < 64; i++ {
		runtime.SimSetSkew(i, 0)
	}
	res := &RunResult{Seed: seed}
	finished := false
	fin := make(chan struct{})
	go func() {
		defer close(fin)
		defer func() {
			if r := recover(); r != nil && !finished {
				res.Panic = fmt.Sprintf("%v\n%s", r, debug.Stack())
			}
		}()
		runtime.SimSetID(splitmix(seed) | 1)
		runtime.SimRun(func() {
			defer func() {
				if r := recover(); r != nil {
					res.Panic = fmt.Sprintf("%v\n%s", r, debug.Stack())
				}
				finished = true
			}()
			runtime.SimSetEpoch(seed)
			w.wake = make(chan struct{}, 1)
			w.db = simdb.New(time.Now)
			// an arbitrary wall clock start
			time.Sleep(time.Duration(w.W.N(86400))*time.Second + time.Duration(w.W.N(1000000000)))
			w.start = runtime.SimNow()
			w.maxStep = sc.Steps
			w.maxLatUs = []int{0, 300, 1500, 5000}[w.S.N(4)]
			w.slowRate = []int{0, 0, 10, 40}[w.S.N(4)]
			w.postRate = []int{0, 100, 300}[w.S.N(3)]
			w.seamRate = []int{0, 200, 600}[w.S.N(3)]
			if w.S.N(4) == 3 {
				w.db.Shuffle = w.shuffle
			}
			sc.Setup(w)
			w.loop(sc.Limit)
			if w.viol == nil && sc.Final != nil {
				sc.Final(w)
			}
			res.SimNs = int64(w.now())
		})
	}()
	<-fin
	res.Hash, res.Inter, res.Steps = w.hash, w.inter, w.step
	res.Viol, res.Known = w.viol, w.known
	res.Ch = Choices{w.W.used(), w.S.used(), w.F.used()}
	res.Injected, res.Probes, res.Truncated, res.Trace, res.Why = w.injected, w.probes, w.truncated, w.lines, w.why
	res.Nontriv = w.probes["choice"] > 0 && w.nInter > 3
	for _, n := range w.nodes {
		n.mem = nil
	}
	w.parked, w.arrived, w.events, w.extra, w.lines, w.nodes, w.db = nil, nil, nil, nil, nil, nil, nil
	curW = nil
	return res
}

func (s *Stream) used() []uint32 {
	n := min(s.pos, len(s.rec))
	out := append([]uint32(nil), s.rec[:n]...)
	for len(out) > 0 && out[len(out)-1] == 0 {
		out = out[:len(out)-1]
	}
	return out
}

var realStdout, realStderr = boot.Stdout, boot.Stderr

var _ = bytes.MinRead

var commonReal = []string{"goroutine and channel semantics, timers, context (Go runtime inside a synctest bubble)"}
var commonStub = []string{"wall clock (simulated)", "process crash (goroutines of the node are frozen, its connections are closed later)"}
var dbReal = []string{"gorm", "gorm MySQL dialector", "database/sql"}
var dbStub = []string{"MySQL server (in-memory model: SQL subset, MVCC snapshots, row locks, NOWAIT, auto increment, unique keys)", "MySQL network driver (lossy, slow, partitionable connection to that model)", "per-node clock skew"}

func (sc *Scenario) usesDB() bool { return sc.Name != "membus" && sc.Name != "redislock" }

func (sc *Scenario) realParts() []string {
	l := append(append([]string{}, sc.Real...), commonReal...)
	if sc.usesDB() {
		l = append(l, dbReal...)
	}
	return l
}
func (sc *Scenario) stubParts() []string {
	l := append(append([]string{}, sc.Stub...), commonStub...)
	if sc.usesDB() {
		l = append(l, dbStub...)
	}
	return l
}
func (sc *Scenario) assumptions() []string {
	l := append(append([]string{}, sc.Assume...),
		"interleavings are explored at the granularity of database statements, commits, network messages, handler and command boundaries, timers and explicit yield points; code between two of them runs atomically")
	if sc.usesDB() {
		l = append(l, "the database model implements the documented InnoDB behaviour the code relies on; gap locks are not modelled")
	}
	return l
}
