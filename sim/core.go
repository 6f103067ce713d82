package main

import (
	"context"
	"fmt"
	"math/bits"
	"runtime"
	"sort"
	"strings"
	"time"

	"vsim/simdb"
)

// ---------------------------------------------------------------- choices

// Stream is one source of recorded choices. A fresh stream draws from a seeded
// generator; a replayed stream returns the recorded values, then zeros.
type Stream struct {
	rng    uint64
	replay bool
	rec    []uint32
	pos    int
}

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func newStream(seed uint64, replay []uint32, isReplay bool) *Stream {
	return &Stream{rng: splitmix(seed), replay: isReplay, rec: append([]uint32(nil), replay...)}
}

// N returns a value in [0,n); 0 is the simplest choice.
func (s *Stream) N(n int) int {
	if n <= 1 {
		return 0
	}
	if s.replay {
		v := 0
		if s.pos < len(s.rec) {
			v = int(s.rec[s.pos]) % n
		}
		s.pos++
		return v
	}
	s.rng += 0x9e3779b97f4a7c15
	z := s.rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	z ^= z >> 31
	hi, _ := bits.Mul64(z, uint64(n))
	s.rec = append(s.rec, uint32(hi))
	s.pos++
	return int(hi)
}

// P is true with probability permille/1000; the simplest choice is false.
func (s *Stream) P(permille int) bool {
	if permille <= 0 {
		return false
	}
	return s.N(1000) >= 1000-permille
}

// R returns a value in [lo,hi].
func (s *Stream) R(lo, hi int) int { return lo + s.N(hi-lo+1) }

// ---------------------------------------------------------------- world

type Violation struct {
	Class string // stable identity of the broken rule
	Msg   string
}

// World is one simulated execution.
type World struct {
	W, S, F *Stream
	db      *simdb.DB
	nodes   []*Node
	runID   uint64

	start   int64 // bubble ns at start
	arrived []*op
	parked  []*op
	wake    chan struct{}
	seq     uint64
	step    int
	maxStep int
	events  []planned
	evSeq   int
	// done is polled between steps by the root.
	done func() bool

	hash   uint64
	trace  bool
	lines  []string
	viol   *Violation
	known  []*Violation // violations attributed to recorded findings
	stop   bool
	why    string
	logN   int
	inter  uint64 // order of released operations, by kind and node
	nInter int

	fault      FaultCfg
	faultsOn   bool
	faultEnd   int64
	gcAt       int
	moreTime   time.Duration // the run may last that much longer
	injected   map[string]int
	probes     map[string]int
	truncated  bool
	extra      any // scenario state
	redis      *redisSim
	sites      map[string]int
	cmdSeq     uint64
	seamRate   int // permille of yields taken at seams
	maxLatUs   int
	slowRate   int
	postRate   int
	clockSkewd bool
	openTxs    map[*conn]struct{}
	onStmt     func(tag uint64, q string, args []any)
	onFault    func(o *op, kind string)
	onCrash    func(n *Node, inc int)
	onSQLErr   func(cmd uint64, err error) // a statement of the command failed
}

type planned struct {
	at  int64
	seq int
	f   func()
}

var curW *World

const (
	tagNodeBits = 6
	tagIncShift = 6
	tagCmdShift = 16
	tagRunShift = 40
)

func (w *World) tag(node, inc int, cmd uint64) uint64 {
	return uint64(node) | uint64(inc)<<tagIncShift | (cmd&0xffffff)<<tagCmdShift | (w.runID&0xffffff)<<tagRunShift
}

func tagNode(t uint64) int   { return int(t & 63) }
func tagInc(t uint64) int    { return int(t>>tagIncShift) & 1023 }
func tagCmd(t uint64) uint64 { return t >> tagCmdShift & 0xffffff }

// now is the true (unskewed) simulated time since the start of the run.
func (w *World) now() time.Duration { return time.Duration(runtime.SimNow() - w.start) }

func (w *World) mix(x uint64) { w.hash = (w.hash ^ x) * 0x100000001b3; w.hash ^= w.hash >> 29 }

// Log records one event of the run in the event log.
func (w *World) Log(f string, a ...any) {
	w.logN++
	s := fmt.Sprintf(f, a...)
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	w.mix(h)
	w.mix(uint64(runtime.SimNow()))
	if w.trace {
		w.lines = append(w.lines, fmt.Sprintf("%12.6f %s", w.now().Seconds(), s))
	}
}

func (w *World) Probe(name string) { w.probes[name]++ }

// Fail records the first violation and ends the run.
func (w *World) Fail(class, f string, a ...any) {
	if w.viol != nil || !strings.HasPrefix(class, curProp+":") {
		return
	}
	msg := fmt.Sprintf(f, a...)
	if reason, ok := knownClass(class, msg); ok {
		for _, k := range w.known {
			if k.Class == class {
				return
			}
		}
		w.known = append(w.known, &Violation{class, reason})
		w.Log("KNOWN %s %s", class, msg)
		return
	}
	w.viol = &Violation{class, msg}
	w.Log("VIOLATION %s: %s", class, msg)
	w.stop = true
}

func (w *World) inject(kind string) { w.injected[kind]++; w.Log("fault %s", kind) }

// ---------------------------------------------------------------- nodes

type Node struct {
	w     *World
	idx   int
	inc   int
	alive bool
	name  string
	boot  func(n *Node)
	cut   int64 // no traffic to the servers before this time
	hang  bool  // while cut: operations hang instead of failing
	slow  int64 // operations are slowed down before this time
	mem   any   // scenario state of this incarnation
	skew  int64
	hold  int64 // does not start before this instant
	hit   int   // faults that touched this incarnation
}

func (w *World) addNode(name string, boot func(n *Node)) *Node {
	n := &Node{w: w, idx: len(w.nodes) + 1, name: name, boot: boot}
	w.nodes = append(w.nodes, n)
	return n
}

// Start boots a new incarnation of the node.
func (n *Node) Start() {
	if d := n.hold - runtime.SimNow(); d > 0 {
		n.w.At(time.Duration(d), func() {
			if !n.alive {
				n.Start()
			}
		})
		return
	}
	n.inc++
	n.alive = true
	n.hit = 0
	n.mem = nil
	n.w.Log("node %s starts incarnation %d", n.name, n.inc)
	n.Go(0, func() { n.boot(n) })
}

// Go runs f on the node as command cmd.
func (n *Node) Go(cmd uint64, f func()) {
	tag := n.w.tag(n.idx, n.inc, cmd)
	go func() {
		runtime.SimSetTag(tag)
		f()
	}()
}

// Crash freezes every goroutine of the node's current incarnation. Server-side
// transactions it had open are rolled back a little later.
func (n *Node) Crash(restartAfter time.Duration) {
	if !n.alive {
		return
	}
	w := n.w
	n.alive = false
	w.inject("crash")
	w.Log("node %s crashes", n.name)
	inc := n.inc
	if w.onCrash != nil {
		w.onCrash(n, inc)
	}
	delay := time.Duration(w.F.N(4)) * 300 * time.Millisecond
	w.At(delay, func() { w.killConns(n.idx, inc) })
	w.At(restartAfter, func() {
		if !n.alive {
			n.Start()
		}
	})
}

// At schedules f on the root goroutine.
func (w *World) At(d time.Duration, f func()) {
	w.evSeq++
	at := runtime.SimNow() + int64(d)
	i := len(w.events)
	for i > 0 && w.events[i-1].at > at {
		i--
	}
	w.events = append(w.events, planned{})
	copy(w.events[i+1:], w.events[i:])
	w.events[i] = planned{at, w.evSeq, f}
	w.kick()
}

func (w *World) kick() {
	select {
	case w.wake <- struct{}{}:
	default:
	}
}

// self returns the node and command of the calling goroutine; goroutines of dead
// incarnations never return from it.
func self() (*World, *Node, uint64) {
	t := runtime.SimTag()
	w := curW
	if w == nil || t>>tagRunShift != w.runID&0xffffff {
		select {}
	}
	n := w.nodes[tagNode(t)-1]
	if !n.alive || n.inc != tagInc(t) {
		select {}
	}
	return w, n, tagCmd(t)
}

func withCmd(cmd uint64, f func()) {
	t := runtime.SimTag()
	runtime.SimSetTag(t&^(uint64(0xffffff)<<tagCmdShift) | (cmd&0xffffff)<<tagCmdShift)
	defer runtime.SimSetTag(t)
	f()
}

func (w *World) newCmd() uint64 { w.cmdSeq++; return w.cmdSeq }

// ---------------------------------------------------------------- operations

type verdict struct {
	err error
	res any
}

type op struct {
	gid    uint64
	seq    uint64
	node   *Node
	inc    int
	cmd    uint64
	kind   string
	desc   string
	ready  int64
	post   int64
	state  int // 0 waiting to run, 1 reply in flight
	ch     chan verdict
	exec   func(o *op) (any, error)
	fail   func(o *op, kind string) error
	out    verdict
	gone   bool
	seam   bool
	waitAt int64  // since when the statement waits for a lock
	waitV  uint64 // db version at which it last tried
	redis  bool
	write  bool
	site   string // identity of the call site, for focused faults
}

// park hands an operation to the scheduler and waits for its outcome.
func (w *World) park(ctx context.Context, o *op) verdict {
	_, n, cmd := self()
	o.node, o.inc, o.cmd = n, n.inc, cmd
	o.gid = runtime.SimID()
	o.ch = make(chan verdict, 1)
	w.arrived = append(w.arrived, o)
	w.kick()
	var done <-chan struct{}
	if ctx != nil {
		done = ctx.Done()
	}
	select {
	case v := <-o.ch:
		self() // a dead incarnation never sees the reply
		return v
	case <-done:
		self()
		o.gone = true
		return verdict{err: ctx.Err()}
	}
}

// parkDetached is park for requests that stay under way when their caller gives
// up waiting: they reach the server later.
func (w *World) parkDetached(ctx context.Context, o *op) verdict {
	_, n, cmd := self()
	o.node, o.inc, o.cmd = n, n.inc, cmd
	o.gid = runtime.SimID()
	o.ch = make(chan verdict, 1)
	w.arrived = append(w.arrived, o)
	w.kick()
	var done <-chan struct{}
	if ctx != nil {
		done = ctx.Done()
	}
	select {
	case v := <-o.ch:
		self()
		return v
	case <-done:
		self()
		return verdict{err: ctx.Err()}
	}
}

// Seam is a yield point inside harness code (command bodies, handlers).
func (w *World) Seam(desc string) {
	self()
	if w.seamRate == 0 {
		return
	}
	w.park(nil, &op{kind: "seam", desc: desc, seam: true})
}

// Sleep is a pause inside harness code.
func (w *World) Sleep(d time.Duration) {
	self()
	if d > 0 {
		time.Sleep(d)
	}
	self()
}

// ---------------------------------------------------------------- faults

// FaultCfg is the fault mix of one run.
type FaultCfg struct {
	on       bool
	rate     int // permille per operation
	kinds    []string
	crashMax int
	nodeRate int
	// one call site (the focus-th distinct one the run reaches) is hit often
	focus     int
	focusKind string
	focusRate int
}

// drawFocus sometimes aims one kind of fault at one call site of the run.
func (w *World) drawFocus(sites int) {
	if len(w.fault.kinds) == 0 || w.F.N(3) != 2 {
		return
	}
	w.fault.focus = w.F.R(1, sites)
	w.fault.focusKind = w.fault.kinds[w.F.N(len(w.fault.kinds))]
	if w.F.N(2) == 1 {
		// a slow caller between two steps is what opens most windows
		w.fault.focusKind = "stall"
		w.fault.kinds = append(w.fault.kinds, "stall")
	}
	w.fault.focusRate = []int{100, 300, 700}[w.F.N(3)]
}

// shuffle draws a row order; nil is the natural one.
func (w *World) shuffle(n int) []int {
	x := uint64(w.S.N(6))
	if x == 0 {
		return nil
	}
	w.Probe("row-order-shuffled")
	p := make([]int, n)
	for i := range p {
		p[i] = i
		if x == 1 {
			p[i] = n - 1 - i
		}
	}
	if x > 1 {
		for i := n - 1; i > 0; i-- {
			x = splitmix(x)
			j := int(x % uint64(i+1))
			p[i], p[j] = p[j], p[i]
		}
	}
	return p
}

// siteNo numbers the distinct call sites of the run in order of appearance.
func (w *World) siteNo(o *op) int {
	if o.site == "" {
		return 0
	}
	n, ok := w.sites[o.site]
	if !ok {
		if w.sites == nil {
			w.sites = map[string]int{}
		}
		n = len(w.sites) + 1
		w.Log("site %d %s", n, o.site)
		w.sites[o.site] = n
	}
	return n
}

var lossyKinds = []string{"err-before", "err-after", "deadlock", "lock-timeout", "sql-error", "stall", "crash-before", "crash-after", "partition", "slow", "clock-jump"}

func (w *World) faultsActive() bool {
	return w.faultsOn && runtime.SimNow() < w.faultEnd
}

// drawFault picks the fault (if any) that hits o.
func (w *World) drawFault(o *op) string {
	if !w.faultsActive() || len(w.fault.kinds) == 0 {
		return ""
	}
	if w.fault.focus != 0 && w.siteNo(o) == w.fault.focus && w.F.P(w.fault.focusRate) {
		w.Probe("focused-fault")
		return w.fault.focusKind
	}
	rate := w.fault.rate
	if o.write {
		rate *= 3
	}
	if !w.F.P(rate) {
		return ""
	}
	k := w.fault.kinds[w.F.N(len(w.fault.kinds))]
	if o.redis && (k == "deadlock" || k == "lock-timeout" || k == "sql-error") {
		k = "err-after"
	}
	return k
}

// ---------------------------------------------------------------- scheduler

func (w *World) admit() {
	if len(w.arrived) == 0 {
		return
	}
	batch := w.arrived
	w.arrived = nil
	sort.SliceStable(batch, func(i, j int) bool { return batch[i].gid < batch[j].gid })
	now := runtime.SimNow()
	for _, o := range batch {
		w.seq++
		o.seq = w.seq
		if o.seam {
			o.ready = now
			if w.S.P(w.seamRate) {
				o.ready = now + int64(w.S.N(w.maxLatUs*3+1))*1000
			}
		} else {
			lat := w.S.N(w.maxLatUs + 1)
			if w.S.P(w.slowRate) {
				lat += w.S.N(400) * 1000
			}
			if o.node != nil && o.node.slow > now {
				lat += w.S.N(2000) * 1000
			}
			o.ready = now + int64(lat)*1000
			if w.S.P(w.postRate) {
				o.post = int64(w.S.N(w.maxLatUs*4+1)) * 1000
			}
		}
		w.parked = append(w.parked, o)
	}
}

// loop is the simulator: it runs on the bubble's root goroutine.
func (w *World) loop(limit time.Duration) {
	end := w.start + int64(limit+w.moreTime)
	epochSeed := uint64(w.S.N(1 << 16))
	for {
		runtime.SimWait()
		if w.stop {
			return
		}
		if w.step&1023 == 1023 && w.step != w.gcAt {
			// the collector is off during a run; here everything else is blocked
			w.gcAt = w.step
			if heapMB() > 900 {
				runtime.GC()
			}
		}
		w.admit()
		now := runtime.SimNow()
		if now >= end {
			w.why = "time"
			return
		}
		if w.done != nil && w.done() {
			w.why = "done"
			return
		}
		if w.step >= w.maxStep {
			w.truncated = true
			w.why = "steps"
			return
		}
		// planned events first
		if len(w.events) > 0 {
			if w.events[0].at <= now {
				e := w.events[0]
				w.events = w.events[1:]
				w.step++
				runtime.SimSetEpoch(splitmix(epochSeed<<32 ^ uint64(w.step)))
				e.f()
				continue
			}
		}
		var el []*op
		next := end
		live := w.parked[:0]
		for _, o := range w.parked {
			if o.gone {
				continue
			}
			if o.node != nil && (!o.node.alive || o.node.inc != o.inc) {
				continue // frozen for good
			}
			live = append(live, o)
			at := o.ready
			if !o.seam && o.node != nil && o.state == 0 && o.node.cut > now && o.node.hang {
				at = max(at, o.node.cut)
			}
			if o.waitAt != 0 && o.state == 0 && o.waitV == w.db.Version {
				at = max(at, o.waitAt+int64(50*time.Second))
			}
			if at <= now {
				el = append(el, o)
			} else if at < next {
				next = at
			}
		}
		for i := len(live); i < len(w.parked); i++ {
			w.parked[i] = nil
		}
		w.parked = live
		if len(el) == 0 {
			if len(w.events) > 0 && w.events[0].at < next {
				next = w.events[0].at
			}
			t := time.NewTimer(time.Duration(next - now))
			select {
			case <-w.wake:
			case <-t.C:
			}
			t.Stop()
			continue
		}
		i := 0
		if len(el) > 1 {
			i = w.S.N(len(el))
			w.Probe("choice")
		}
		o := el[i]
		w.step++
		w.inter = splitmix(w.inter ^ uint64(o.nodeIdx())<<32 ^ strHash(o.kind) ^ o.cmd<<40)
		if o.seam {
			w.inter = splitmix(w.inter ^ strHash(o.desc))
		}
		w.nInter++
		runtime.SimSetEpoch(splitmix(epochSeed<<32 ^ uint64(w.step)))
		w.dispatch(o, now)
	}
}

func (o *op) nodeIdx() int {
	if o.node == nil {
		return 0
	}
	return o.node.idx
}

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func (w *World) drop(o *op) {
	for i, x := range w.parked {
		if x == o {
			w.parked = append(w.parked[:i:i], w.parked[i+1:]...)
			return
		}
	}
}

func (w *World) reply(o *op) {
	w.drop(o)
	o.gone = true
	o.ch <- o.out
}

func (w *World) dispatch(o *op, now int64) {
	if o.state == 1 {
		w.reply(o)
		return
	}
	if o.seam {
		w.Log("%s seam %s", o.node.name, o.desc)
		w.reply(o)
		return
	}
	first := o.waitAt == 0
	kind := ""
	if first {
		if o.node.cut > now {
			o.node.hit++
			o.out = verdict{err: o.fail(o, "cut")}
			w.Log("%s %s unreachable", o.node.name, o.desc)
			w.reply(o)
			return
		}
		kind = w.drawFault(o)
	} else if now >= o.waitAt+int64(50*time.Second) {
		o.waitAt = 0
		o.out = verdict{err: o.fail(o, "lock-wait-timeout")}
		w.Log("%s %s lock wait timeout", o.node.name, o.desc)
		w.reply(o)
		return
	}
	switch kind {
	case "err-before", "deadlock", "lock-timeout", "sql-error", "busy":
		err := o.fail(o, kind)
		if err != nil {
			o.node.hit++
			w.inject(kind)
			o.out = verdict{err: err}
			w.Log("%s %s -> %v", o.node.name, o.desc, err)
			w.reply(o)
			return
		}
	case "crash-before":
		if w.fault.crashMax > 0 {
			w.fault.crashMax--
			w.Log("%s %s (crash before)", o.node.name, o.desc)
			o.node.Crash(w.restartDelay())
			return
		}
	case "partition":
		o.node.hit++
		o.node.cut = now + int64(w.F.R(1, 20))*int64(500*time.Millisecond)
		o.node.hang = w.F.N(2) == 1
		w.inject("partition")
		w.Log("%s cut off until +%v hang=%v", o.node.name, time.Duration(o.node.cut-now), o.node.hang)
		if !o.node.hang {
			o.out = verdict{err: o.fail(o, "cut")}
			w.reply(o)
		}
		return
	case "stall":
		o.node.hit++
		w.inject("stall")
		o.ready = now + int64(w.F.R(1, 30))*int64(time.Second)
		if w.F.N(4) == 3 {
			o.ready += int64(60 * time.Second)
		}
		return
	case "slow":
		w.inject("slow")
		o.node.slow = now + int64(w.F.R(1, 20))*int64(time.Second)
	case "clock-jump":
		w.clockJump(o.node)
	}
	res, err := o.exec(o)
	if err == simdb.ErrWait {
		if o.waitAt != 0 {
			w.step--
		} else {
			o.waitAt = now
			w.Log("%s %s waits", o.node.name, o.desc)
			w.Probe("lock-wait")
		}
		o.waitV = w.db.Version
		return
	}
	o.waitAt = 0
	o.out = verdict{err: err, res: res}
	if err != nil {
		w.Log("%s %s -> %v", o.node.name, o.desc, err)
	} else {
		w.Log("%s %s", o.node.name, o.desc)
	}
	switch kind {
	case "err-after":
		if e := o.fail(o, kind); e != nil {
			o.node.hit++
			if w.onFault != nil {
				w.onFault(o, kind)
			}
			w.inject(kind)
			o.out = verdict{err: e}
			w.Log("%s reply lost", o.node.name)
		}
	case "crash-after":
		if w.fault.crashMax > 0 {
			w.fault.crashMax--
			w.Log("%s (crash after)", o.node.name)
			o.node.Crash(w.restartDelay())
			return
		}
	}
	if o.post > 0 {
		o.state = 1
		o.ready = now + o.post
		return
	}
	w.reply(o)
}

func (w *World) restartDelay() time.Duration {
	return time.Duration(w.F.R(1, 16)) * 500 * time.Millisecond
}

func (w *World) clockJump(n *Node) {
	// bounded skew: at most +-maxSkew away from true time
	v := int64(w.F.R(0, 2000)-1000) * int64(time.Millisecond)
	n.skew = v
	runtime.SimSetSkew(uint64(n.idx), v)
	w.clockSkewd = true
	w.inject("clock-jump")
	w.Log("%s clock skew %v", n.name, time.Duration(v))
}

func (w *World) summary() string {
	var sb strings.Builder
	for _, l := range w.lines {
		sb.WriteString(l)
		sb.WriteByte('\n')
	}
	return sb.String()
}
