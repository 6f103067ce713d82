package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"

	dtimer "github.com/bytedance/dddfirework/d_timer/sql"
	"github.com/go-logr/logr"
	"github.com/robfig/cron"
	"gorm.io/gorm"

	"vsim/simdb"
)

// Timers (C13): instances of one or two services with a database timer each,
// registering, cancelling and running jobs.

type tmJob struct {
	id      int64
	svc     string
	key     string
	cron    string
	payload string
	next    time.Time
	status  int64
	changed time.Duration // of the last committed change
}

type tmRun struct {
	inst  *tmNode
	inc   int
	jobID int64
	next  time.Time
	start time.Duration
	end   time.Duration
	ended bool
	hit0  int
	done  bool // its outcome was committed
	err   error
}

type tmStep struct {
	kind    int // 0 cron 1 once 2 cancel
	key     string
	spec    string
	in      time.Duration
	payload string
	pause   time.Duration
}

type tmCall struct {
	id     uint64
	nd     *tmNode
	st     tmStep
	inv    time.Duration
	at     time.Time // requested time of a one-time job
	wallA  time.Time
	hit0   int
	ver0   int
	clash  bool // the key belonged to another service meanwhile
	cancel bool // some other call on the key
	seen   bool // the job existed at some time during the call
	made   *tmJob
}

type tmNode struct {
	n        *Node
	svc      string
	interval time.Duration
	starts   bool
	twice    bool
	late     time.Duration
	progs    [][]tmStep
	pcs      []int
	bootRegs []tmStep
	idle     int
	tm       *dtimer.DBTimer
	active   time.Duration // since when it can run jobs, -1 if it cannot
	lastBusy time.Duration
	cur      *tmRun
}

type tmWorld struct {
	w       *World
	nodes   []*tmNode
	jobs    map[string]*tmJob // service/key
	calls   map[uint64]*tmCall
	runs    []*tmRun
	specs   []string
	maxCb   time.Duration
	cbMode  int
	horizon time.Duration
	lastBad time.Duration
	skewOn  bool
	jumpOn  bool
	quiet   bool
	vers    map[string]int
}

func tmScenario() *Scenario {
	return &Scenario{Name: "timer", Setup: tmSetup, Final: tmFinal, Limit: 30 * 24 * time.Hour, Steps: 60000,
		Real:   []string{"d_timer/sql (all of it)", "robfig/cron schedule parser"},
		Assume: []string{"due times are kept with the precision of the column (one second); a job may start up to half a second before a due time with a fraction", "clocks of the nodes differ by at most 2 s", "timer handlers return and do not panic"},
	}
}

func tmSetup(w *World) {
	W, F := w.W, w.F
	r := &tmWorld{w: w, jobs: map[string]*tmJob{}, calls: map[uint64]*tmCall{}, vers: map[string]int{}}
	w.extra = r
	createTable(w.db, &dtimer.TimerJob{})
	w.db.OnCommit = r.onCommit
	iv := []time.Duration{time.Second, 200 * time.Millisecond, 5 * time.Second, 30 * time.Second}[W.N(4)]
	unit := max(iv, time.Second)
	r.horizon = unit * time.Duration(W.R(12, 60))
	switch {
	case iv <= time.Second:
		r.specs = []string{"0/5 * * * * ?", "0/1 * * * * ?", "@every 3s", "3,7,40 * * * * *", "*/7 * * * * *", "0 * * * * ?"}
	case iv <= 5*time.Second:
		r.specs = []string{"0/5 * * * * ?", "@every 3s", "0/20 * * * * ?", "0 * * * * *", "30 0/2 * * * ?"}
	default:
		r.specs = []string{"0 * * * * ?", "0/20 * * * * ?", "@every 90s", "15 0/10 * * * ?", "@hourly", "0 0 3 * * *"}
	}
	if W.P(100) { // days of simulated time
		iv, unit = 10*time.Minute, 10*time.Minute
		r.horizon = unit * time.Duration(W.R(24, 300))
		r.specs = []string{"@hourly", "@daily", "0 30 2 * * *", "0 0 0/6 * * ?", "@every 45m", "0 15 10 ? * MON-FRI"}
	}
	r.cbMode = W.N(4)
	svcs := []string{"svcA", "svcB"}[:1+W.N(2)]
	keys := []string{"k1", "k2", "k3", "k4"}[:W.R(1, 4)]
	fixed := map[string]string{}
	for _, k := range keys {
		fixed[k] = r.specs[W.N(len(r.specs))]
	}
	nn := W.R(1, 3)
	var boot []tmStep
	for _, k := range keys {
		if W.P(500) {
			boot = append(boot, tmStep{kind: 0, key: k, spec: fixed[k], payload: "p-" + k})
		}
	}
	for i := 0; i < nn; i++ {
		nd := &tmNode{svc: svcs[W.N(len(svcs))], interval: iv, starts: !W.P(150), twice: W.P(150), active: -1}
		if i == 0 {
			nd.svc, nd.starts = svcs[0], true
		}
		if W.P(200) {
			nd.late = time.Duration(W.N(int(3*iv/time.Millisecond))) * time.Millisecond
		}
		for _, s := range boot {
			if len(svcs) > 1 && !W.P(100) {
				s.key = s.key + "-" + nd.svc
			}
			nd.bootRegs = append(nd.bootRegs, s)
		}
		for j := W.N(3); j > 0; j-- {
			var prog []tmStep
			for k := W.R(1, 6); k > 0; k-- {
				s := tmStep{kind: []int{0, 1, 1, 2, 2}[W.N(5)], key: keys[W.N(len(keys))], payload: tmPayload(W)}
				if len(svcs) > 1 && !W.P(300) {
					s.key = s.key + "-" + nd.svc
				}
				if s.kind == 2 && W.P(80) {
					s.key = []string{"", "k", "K9"}[W.N(3)]
				}
				switch s.kind {
				case 0:
					s.spec = fixed[strings.SplitN(s.key, "-", 2)[0]]
					if W.P(200) {
						s.spec = r.specs[W.N(len(r.specs))]
					}
					if W.P(60) {
						s.spec = []string{"bad", "* * *", "61 * * * * *", "@every x"}[W.N(4)]
					}
				case 1:
					switch W.N(4) {
					case 0:
						s.in = time.Duration(W.N(int(unit/time.Millisecond))) * time.Millisecond
					case 1:
						s.in = time.Duration(W.N(int(8*unit/time.Millisecond))) * time.Millisecond
					case 2:
						s.in = time.Duration(W.N(int(2*r.horizon/time.Millisecond))) * time.Millisecond
					case 3:
						s.in = -time.Duration(W.N(int(unit/time.Millisecond))) * time.Millisecond
					}
				}
				switch W.N(3) {
				case 1:
					s.pause = time.Duration(W.N(int(2*unit/time.Millisecond))) * time.Millisecond
				case 2:
					s.pause = time.Duration(W.N(int(8*unit/time.Millisecond))) * time.Millisecond
				}
				prog = append(prog, s)
			}
			nd.progs = append(nd.progs, prog)
		}
		nd.pcs = make([]int, len(nd.progs))
		nd.n = w.addNode(fmt.Sprintf("n%d", i+1), func(n *Node) { r.boot(nd, n) })
		r.nodes = append(r.nodes, nd)
	}
	r.quiet = true
	if F.N(10) >= 4 {
		r.quiet = false
		w.faultsOn, w.fault.on = true, true
		w.fault.rate = []int{5, 20, 50}[F.N(3)]
		w.fault.crashMax = 3
		for _, k := range []string{"err-before", "err-after", "deadlock", "lock-timeout", "sql-error", "stall", "crash-before", "crash-after", "partition", "slow"} {
			if F.N(2) == 1 {
				w.fault.kinds = append(w.fault.kinds, k)
			}
		}
		if F.N(4) == 3 {
			w.fault.kinds = append(w.fault.kinds, "clock-jump", "clock-jump")
			r.skewOn, r.jumpOn = true, true
		}
		fe := time.Duration(F.R(1, 12)) * r.horizon / 16
		w.faultEnd = w.start + int64(fe)
		w.drawFocus(14)
		r.horizon += fe
		w.onFault = nil
	}
	if W.P(120) { // clocks that differ all the time
		r.skewOn = true
		for _, nd := range r.nodes {
			nd.n.skew = int64(W.N(2000)-1000) * int64(time.Millisecond)
			runtime.SimSetSkew(uint64(nd.n.idx), nd.n.skew)
			w.Log("%s clock skew %v", nd.n.name, time.Duration(nd.n.skew))
		}
	}
	for _, nd := range r.nodes {
		d := time.Duration(0)
		if W.P(300) {
			d = time.Duration(W.N(int(4*unit/time.Millisecond))) * time.Millisecond
		}
		w.At(d, func() { nd.n.Start() })
	}
	poll := max(iv/2, time.Second)
	var tick func()
	tick = func() {
		r.poll()
		if w.now() < r.horizon {
			w.At(poll, tick)
		}
	}
	w.At(poll, tick)
	w.done = func() bool { return w.now() >= r.horizon }
}

func tmPayload(W *Stream) string {
	n := W.N(1000)
	switch n % 8 {
	case 0:
		return ""
	case 1:
		return fmt.Sprintf("{\"a\":\"<b>&ü语🙂'`\\\\ %%d ? :x\",\"n\":%d}", n)
	case 2:
		return strings.Repeat("long payload ", 300) + fmt.Sprint(n)
	}
	return fmt.Sprintf("p%d", n)
}

func (r *tmWorld) tol() time.Duration {
	if r.skewOn {
		return 2100 * time.Millisecond
	}
	return time.Millisecond
}

func (r *tmWorld) wall() time.Time { return time.Unix(0, runtime.SimNow()) }

func (r *tmWorld) boot(nd *tmNode, n *Node) {
	w := r.w
	nd.active, nd.cur, nd.lastBusy = -1, nil, w.now()
	db := openGorm(w)
	self()
	tm := dtimer.NewDBTimer(nd.svc, db, func(o *dtimer.Options) {
		o.Logger = logr.Discard()
		if nd.interval != time.Second { // the documented default
			o.RunInterval = nd.interval
		}
	})
	nd.tm = tm
	cb := func(ctx context.Context, key, cron string, data []byte) error {
		return r.callback(nd, ctx, key, cron, string(data))
	}
	reg := nd.late == 0
	if reg {
		tm.RegisterTimerHandler(cb)
	}
	if nd.starts {
		tm.Start(context.Background())
		if nd.twice {
			tm.Start(context.Background())
		}
		if reg {
			nd.active = w.now()
		}
	}
	w.Log("%s ready (%s, starts %v, handler after %v)", n.name, nd.svc, nd.starts, nd.late)
	for i, prog := range nd.progs {
		n.Go(0, func() {
			for nd.pcs[i] < len(prog) {
				s := prog[nd.pcs[i]]
				nd.pcs[i]++
				w.Sleep(s.pause)
				r.call(nd, s)
			}
		})
	}
	n.Go(0, func() {
		for _, s := range nd.bootRegs {
			r.call(nd, s)
		}
	})
	if !reg {
		w.Sleep(nd.late)
		tm.RegisterTimerHandler(cb)
		if nd.starts {
			nd.active = w.now()
		}
	}
}

func tmKey(svc, key string) string { return svc + "/" + key }

// owner returns the service that has a job with the key.
func (r *tmWorld) owners(key string) (out []string) {
	for _, j := range r.jobs {
		if j.key == key {
			out = append(out, j.svc)
		}
	}
	sort.Strings(out)
	return
}

func (r *tmWorld) call(nd *tmNode, s tmStep) {
	w, n, _ := self()
	k := &tmCall{id: w.newCmd(), nd: nd, st: s, inv: w.now(), hit0: n.hit}
	id := tmKey(nd.svc, s.key)
	k.ver0 = r.vers[id]
	_, k.seen = r.jobs[id]
	for _, o := range r.calls {
		if o.st.key == s.key {
			o.touch(k)
			k.touch(o)
		}
	}
	for _, o := range r.owners(s.key) {
		if o != nd.svc {
			k.clash = true
		}
	}
	r.calls[k.id] = k
	var err error
	what := ""
	withCmd(k.id, func() {
		k.wallA = time.Now()
		switch s.kind {
		case 0:
			what = "RunCron " + s.key + " " + s.spec
			err = nd.tm.RunCron(s.key, s.spec, []byte(s.payload))
		case 1:
			k.at = time.Now().Add(s.in)
			what = "RunOnce " + s.key
			err = nd.tm.RunOnce(s.key, k.at, []byte(s.payload))
		case 2:
			what = "Cancel " + s.key
			err = nd.tm.Cancel(s.key)
		}
	})
	self()
	w.Log("%s %s -> %v", n.name, what, err)
	delete(r.calls, k.id)
	r.judge(k, what, err)
}

func (k *tmCall) touch(o *tmCall) {
	if o.nd.svc != k.nd.svc {
		if o.st.kind != 2 {
			k.clash = true
		}
		return
	}
	if o.st.kind == 2 {
		k.cancel = true
	}
}

func (r *tmWorld) judge(k *tmCall, what string, err error) {
	w := r.w
	s := k.st
	id := tmKey(k.nd.svc, s.key)
	n := k.nd.n
	bad := n.hit != k.hit0
	now := time.Now()
	if s.kind == 2 {
		if err == nil {
			w.Probe("cancel")
			if j := r.jobs[id]; j != nil && (k.seen || j.changed < k.inv) && r.vers[id] == k.ver0 {
				w.Fail("C13:cancel-ignored", "%s returns but the job is still there", what)
			}
		} else if !bad && !dbExcuse(err) {
			w.Fail("C13:cancel-error", "%s fails although nothing went wrong: %v", what, err)
		}
		return
	}
	if s.kind == 0 {
		if _, e := cron.Parse(s.spec); e != nil {
			if err == nil {
				w.Fail("C13:bad-schedule", "%s is accepted", what)
			}
			w.Probe("bad-spec")
			return
		}
	}
	if s.kind == 1 && errors.Is(err, dtimer.ErrTimerOverdue) {
		w.Probe("overdue")
		if k.at.After(now.Add(r.tol())) {
			w.Fail("C13:register-error", "%s %v ahead is refused as overdue", what, k.at.Sub(now))
		}
		return
	}
	if err != nil {
		w.Probe("register-error")
		if !bad && !k.clash && !k.cancel && !dbExcuse(err) {
			w.Fail("C13:register-error", "%s fails although nothing went wrong: %v", what, err)
		}
		return
	}
	w.Probe("register")
	if s.kind == 1 && k.at.Before(k.wallA.Add(-r.tol())) && k.made != nil {
		w.Fail("C13:overdue-accepted", "%s %v in the past creates a job", what, k.wallA.Sub(k.at))
	}
	if !k.seen && k.made == nil {
		w.Fail("C13:not-registered", "%s succeeds but there is no such job", what)
	}
}

func (r *tmWorld) callback(nd *tmNode, ctx context.Context, key, spec, data string) error {
	w, n, _ := self()
	now := time.Now()
	id := tmKey(nd.svc, key)
	j := r.jobs[id]
	w.Log("%s runs %s (%q %q)", n.name, key, spec, data)
	w.Probe("run")
	run := &tmRun{inst: nd, inc: n.inc, start: w.now(), hit0: n.hit}
	nd.cur = run
	nd.lastBusy = w.now()
	if j == nil {
		w.Fail("C13:ran-removed", "%s runs %s which no longer exists", n.name, id)
	} else {
		run.jobID, run.next = j.id, j.next
		if j.status != 1 {
			w.Fail("C13:ran-finished", "%s runs %s which is finished", n.name, id)
		}
		if j.cron != spec || j.payload != data {
			w.Fail("C13:wrong-data", "%s runs %s with %q %q instead of %q %q", n.name, id, spec, data, j.cron, j.payload)
		}
		if now.Add(r.tol()).Before(j.next) {
			w.Fail("C13:too-early", "%s runs %s %v before it is due", n.name, id, j.next.Sub(now))
		}
		for _, o := range r.runs {
			if o.jobID != j.id || o.jobID == 0 {
				continue
			}
			fine := o.inst.n.hit == o.hit0 && o.inst.n.inc == o.inc && o.inst.n.alive
			if !o.ended && fine {
				w.Fail("C13:overlap", "%s runs %s while %s is still running it", n.name, id, o.inst.n.name)
			}
			if o.ended && o.done && o.next.Equal(j.next) {
				w.Fail("C13:ran-twice", "%s runs the occurrence %v of %s again", n.name, j.next.Format("15:04:05"), id)
			}
			if o.ended && o.next.Equal(j.next) && fine && r.quiet {
				w.Fail("C13:ran-twice", "%s runs the occurrence %v of %s again although nothing failed", n.name, j.next.Format("15:04:05"), id)
			}
			if o.ended && o.next.Equal(j.next) {
				w.Probe("repeated")
			}
		}
	}
	r.runs = append(r.runs, run)
	if len(r.runs) > 400 {
		r.runs = append([]*tmRun(nil), r.runs[200:]...)
	}
	d := time.Duration(0)
	iv := int(max(nd.interval, time.Second) / time.Millisecond)
	switch r.cbMode {
	case 1:
		d = time.Duration(w.W.N(300)) * time.Millisecond
	case 2:
		d = time.Duration(w.W.N(2*iv)) * time.Millisecond
	case 3:
		if w.W.N(4) == 3 {
			d = time.Duration(w.W.N(10*iv)) * time.Millisecond
		}
	}
	r.maxCb = max(r.maxCb, d)
	if d > 0 {
		w.Sleep(d)
	} else {
		w.Seam("callback")
	}
	var err error
	if w.W.P(150) {
		err = errBiz
		w.Probe("run-failed")
	}
	run.ended, run.end, run.err = true, w.now(), err
	nd.lastBusy = w.now()
	nd.cur = nil
	w.Log("%s ran %s -> %v", n.name, key, err)
	return err
}

func tmRow(m map[string]any) *tmJob {
	j := &tmJob{}
	j.id, _ = m["id"].(int64)
	j.svc, _ = m["service"].(string)
	j.key, _ = m["key"].(string)
	j.cron, _ = m["cron"].(string)
	j.status, _ = m["status"].(int64)
	j.next, _ = m["next_time"].(time.Time)
	switch p := m["payload"].(type) {
	case string:
		j.payload = p
	case []byte:
		j.payload = string(p)
	}
	return j
}

func (r *tmWorld) onCommit(tx *simdb.Tx, chs []simdb.Change) {
	w := r.w
	for _, ch := range chs {
		if ch.Table != "ddd_timer" {
			continue
		}
		var b, a *tmJob
		if ch.Before != nil {
			b = tmRow(ch.Before)
		}
		if ch.After != nil {
			a = tmRow(ch.After)
			a.changed = w.now()
		}
		x := a
		if x == nil {
			x = b
		}
		id := tmKey(x.svc, x.key)
		if b != nil && a != nil && b.status == a.status && b.next.Equal(a.next) && b.cron == a.cron && b.payload == a.payload && b.key == a.key && b.svc == a.svc {
			a.changed = b.changed
			r.jobs[id] = a
			continue
		}
		r.vers[id]++
		k := r.calls[tagCmd(tx.Tag)]
		var nd *tmNode
		for _, o := range r.nodes {
			if o.n.idx == tagNode(tx.Tag) {
				nd = o
			}
		}
		switch {
		case a == nil:
			w.Log("row %s removed", id)
			delete(r.jobs, id)
			if k == nil && tagCmd(tx.Tag) == 0 || k != nil && k.st.kind != 2 {
				w.Fail("C13:lost-job", "%s is removed although nobody cancelled it", id)
			} else if k != nil && (k.st.key != b.key || k.nd.svc != b.svc) {
				w.Fail("C13:foreign-cancel", "Cancel of %s by %s removes %s", k.st.key, k.nd.svc, id)
			}
		case b == nil:
			w.Log("row %s %q created, due %s", id, a.cron, a.next.Format("02 15:04:05"))
			r.jobs[id] = a
			for _, o := range r.calls {
				if o.st.key == a.key {
					if o.nd.svc == a.svc {
						o.seen = true
					} else {
						o.clash = true
					}
				}
			}
			if k == nil {
				if tagCmd(tx.Tag) == 0 {
					w.Fail("C13:resurrected", "%s appears again although nobody registered it", id)
				}
				break
			}
			k.made = a
			r.checkNew(k, a, id)
		default:
			w.Log("row %s -> status %d due %s", id, a.status, a.next.Format("02 15:04:05"))
			if a.svc != b.svc || a.key != b.key || a.cron != b.cron || a.payload != b.payload {
				w.Fail("C13:job-changed", "%s is stored as %s/%s %q %q", tmKey(b.svc, b.key), a.svc, a.key, a.cron, a.payload)
			}
			r.jobs[id] = a
			if tagCmd(tx.Tag) != 0 {
				w.Fail("C13:overridden", "registering %s again changes the existing job", id)
				break
			}
			r.advanced(nd, b, a, id)
		}
	}
}

func (r *tmWorld) checkNew(k *tmCall, a *tmJob, id string) {
	w := r.w
	if k.st.kind == 2 {
		w.Fail("C13:resurrected", "Cancel of %s creates a job", k.st.key)
		return
	}
	if a.key != k.st.key || a.svc != k.nd.svc || a.payload != k.st.payload || a.status != 1 || a.cron != k.st.spec {
		w.Fail("C13:wrong-job", "registering %s %q %q stores %s %q %q status %d", tmKey(k.nd.svc, k.st.key), k.st.spec, k.st.payload, id, a.cron, a.payload, a.status)
		return
	}
	if k.st.kind == 1 {
		if d := a.next.Sub(k.at); d > 500*time.Millisecond || d < -500*time.Millisecond {
			w.Fail("C13:wrong-time", "%s is registered %v off its time", id, d)
		}
		return
	}
	r.checkNext(k.wallA, a, id)
}

// checkNext: the due time of a scheduled job follows from a moment between from
// and now.
func (r *tmWorld) checkNext(from time.Time, a *tmJob, id string) {
	sch, err := cron.Parse(a.cron)
	if err != nil {
		r.w.Fail("C13:bad-schedule", "%s has the schedule %q", id, a.cron)
		return
	}
	lo := sch.Next(from.Add(-2 * r.tol()))
	hi := sch.Next(r.wall().Add(2 * r.tol()))
	if a.next.Before(lo) || a.next.After(hi) {
		r.w.Fail("C13:wrong-time", "%s with schedule %q is next due at %s instead of %s .. %s", id, a.cron, a.next.Format("02 15:04:05"), lo.Format("02 15:04:05"), hi.Format("02 15:04:05"))
	}
}

// advanced: a run of the timer changed the job from b to a.
func (r *tmWorld) advanced(nd *tmNode, b, a *tmJob, id string) {
	w := r.w
	var run *tmRun
	for i := len(r.runs) - 1; i >= 0; i-- {
		o := r.runs[i]
		if o.inst == nd && o.jobID == b.id && o.next.Equal(b.next) {
			run = o
			break
		}
	}
	if run == nil || !run.ended {
		w.Fail("C13:skipped", "%s is marked as run although its handler did not run", id)
		return
	}
	// a clock set back may find the same due time ahead again
	run.done = !r.jumpOn
	w.Probe("advanced")
	if a.cron == "" {
		if a.status == 1 {
			w.Fail("C13:reopened", "the one-time job %s is left to run again at %s", id, a.next.Format("15:04:05"))
		}
		return
	}
	if a.status != 1 {
		w.Fail("C13:schedule-ended", "%s with schedule %q is closed after a run", id, a.cron)
		return
	}
	r.checkNext(time.Unix(0, w.start).Add(run.end), a, id)
}

// poll judges progress.
func (r *tmWorld) poll() {
	w := r.w
	now := w.now()
	if w.faultsActive() || w.faultsOn && now < time.Duration(w.faultEnd-w.start)+time.Second {
		r.lastBad = now
	}
	for _, nd := range r.nodes {
		n := nd.n
		if !n.alive && n.inc > 0 || n.cut > runtime.SimNow() || n.slow > runtime.SimNow() {
			r.lastBad = now
		}
	}
	// a dead server-side transaction keeps its locks for a while
	for _, o := range w.parked {
		if !o.gone && !o.seam && (o.ready > runtime.SimNow()+int64(time.Second) || o.waitAt != 0) {
			r.lastBad = now
		}
	}
	slack := 3 * time.Second
	if w.slowRate > 0 {
		slack = 15 * time.Second
	}
	slack += 2 * r.tol()
	if len(w.openTxs) > 0 {
		for c := range w.openTxs {
			if !c.n.alive || c.inc != c.n.inc || c.dead {
				r.lastBad = now
			}
		}
	}
	ids := make([]string, 0, len(r.jobs))
	for id := range r.jobs {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		j := r.jobs[id]
		due := j.next.Sub(time.Unix(0, w.start))
		if j.status != 1 || due > now {
			continue
		}
		busy := false
		var ranEnd time.Duration // a run that has ended may still have to be stored
		for _, o := range r.runs {
			if o.jobID == j.id {
				ranEnd = max(ranEnd, o.end)
			}
			if o.jobID == j.id && !o.ended && o.inst.n.alive && o.inst.n.inc == o.inc {
				busy = true
			}
		}
		if busy {
			continue
		}
		for _, nd := range r.nodes {
			if nd.svc != j.svc || !nd.n.alive || nd.active < 0 {
				continue
			}
			d0 := max(due, r.lastBad, nd.active, j.changed, ranEnd)
			free := nd.cur == nil && now-max(d0, nd.lastBusy) > 2*nd.interval+slack
			long := now-d0 > 2*nd.interval+slack+time.Duration(2*len(r.jobs))*(r.maxCb+time.Second)
			if free || long {
				w.Fail("C13:not-run", "%s is due since %v but %s does not run it", id, now-d0, nd.n.name)
			}
		}
	}
}

func tmFinal(w *World) {
	r := w.extra.(*tmWorld)
	for range r.calls {
		w.Probe("call-open")
	}
	for _, nd := range r.nodes {
		for i := range nd.pcs {
			if nd.pcs[i] < len(nd.progs[i]) {
				w.Probe("prog-open")
			}
		}
	}
}

var _ *gorm.DB
