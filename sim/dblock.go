package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"time"

	ddd "github.com/bytedance/dddfirework"
	dblock "github.com/bytedance/dddfirework/lock/db"
	"github.com/go-logr/logr"
	"gorm.io/gorm"

	"vsim/simdb"
)

// C11: several nodes with several clients each use lock/db on the same keys. The
// reference is the lease rule: a key belongs to the client that obtained it until
// that client unlocks or its lease, counted from its last stored renewal, is over.

type dlHold struct {
	cl     *dlClient
	key    string
	id     string // locker id
	inc    int
	since  time.Time // holds from here on
	lease  time.Time // end of the lease
	ended  bool      // unlock called, or Run is past its function
	endAt  time.Duration
	runs   bool
	inFn   bool
	lostAt time.Duration // the row was taken away at this time
	lost   bool
	l      any
}

type dlClient struct {
	nd   *dlNode
	no   int
	prog []dlStep
	pc   int
	cur  *dlCall
	idle bool
}

type dlCall struct {
	cl      *dlClient
	id      uint64
	key     string
	inv     time.Duration
	v0      int
	free    bool // the key was free when the call began
	hit0    int
	what    string
	unlock  string // locker id this call may remove
	wroteID string
	rivals0 bool // another call on the key was under way
}

type dlStep struct {
	kind  int // 0 lock-hold-unlock, 1 run, 2 lock and abandon, 3 run with panic, 4 lock with timeout, 5 run that is cancelled by its caller
	after time.Duration
	key   string
	hold  time.Duration
	pause time.Duration
	twice bool
}

type dlNode struct {
	n       *Node
	lk      *dblock.DBLock
	db      *gorm.DB
	retry   bool
	trans   bool
	clients []*dlClient
}

type dlRun struct {
	w       *World
	nodes   []*dlNode
	ttl     time.Duration
	renew   time.Duration
	keys    []string
	holds   []*dlHold
	calls   map[uint64]*dlCall
	rows    map[string]map[string]any
	vers    map[string]int
	left    int
	probeD  bool
	probed  int
	skew    bool
	quiet   bool // no faults in this run
	leak0   int
	leakChk bool
	doneT   time.Duration
}

func dlScenario() *Scenario {
	return &Scenario{Name: "dblock", Setup: dlSetup, Final: dlFinal, Limit: 30 * time.Minute, Steps: 60000,
		Real:   []string{"lock/db (all of it)", "avast/retry-go"},
		Assume: []string{"clocks of the nodes differ by at most 2 s and the lease is longer than that whenever clocks are skewed"},
	}
}

// pairs of different keys that are easily mixed up
var lockNames = [][]string{
	{"key1", "key2"}, {"key1", "key2"}, {"key1", "key10"}, {"a_b", "axb"}, {"key%", "key1"}, {"ab:c", "a:bc"},
	{"语言-1", "语言-2"}, {strings.Repeat("k", 200) + "1", strings.Repeat("k", 200) + "2"}, {"it's", "its"},
}

func dlSetup(w *World) {
	W, F := w.W, w.F
	r := &dlRun{w: w, calls: map[uint64]*dlCall{}, rows: map[string]map[string]any{}, vers: map[string]int{}}
	w.extra = r
	createTable(w.db, &dblock.ResourceLock{})
	w.db.OnCommit = r.onCommit
	w.onStmt = r.onStmt
	r.renew = []time.Duration{time.Second, 200 * time.Millisecond, 3 * time.Second}[W.N(3)]
	r.ttl = r.renew + []time.Duration{4 * time.Second, 0, 500 * time.Millisecond, 10 * time.Second, time.Second, r.renew}[W.N(6)]
	names := lockNames[W.N(len(lockNames))]
	r.keys = append(r.keys, names[:W.R(1, 2)]...)
	if r.leakChk = W.P(80); r.leakChk {
		r.leak0 = dlLeaks()
	}
	for i := W.R(1, 3); i > 0; i-- {
		nd := &dlNode{retry: W.P(500), trans: W.P(400)}
		nd.n = w.addNode(fmt.Sprintf("n%d", i), func(n *Node) { r.boot(nd, n) })
		for j := W.R(1, 3); j > 0; j-- {
			c := &dlClient{nd: nd, no: r.left}
			r.left++
			for k := W.R(1, 5); k > 0; k-- {
				s := dlStep{kind: []int{0, 0, 0, 0, 1, 1, 1, 2, 3, 4, 5}[W.N(11)], key: r.keys[W.N(len(r.keys))]}
				switch W.N(5) {
				case 0:
					s.hold = 0
				case 1:
					s.hold = time.Duration(W.N(1000)) * time.Millisecond
				case 2:
					s.hold = time.Duration(W.N(int(r.ttl/time.Millisecond)+1)) * time.Millisecond
				case 3: // around the end of the lease
					s.hold = r.ttl + time.Duration(W.R(0, 200)-100)*time.Millisecond
				case 4:
					s.hold = r.ttl * time.Duration(W.R(2, 8)) / 2
				}
				switch W.N(4) {
				case 1:
					s.pause = time.Duration(W.N(500)) * time.Millisecond
				case 2:
					s.pause = time.Duration(W.N(int(r.ttl/time.Millisecond)+1)) * time.Millisecond
				case 3:
					s.pause = r.ttl + time.Duration(W.R(0, 300)-100)*time.Millisecond
				}
				s.twice = W.P(100)
				if s.kind == 5 {
					s.after = time.Duration(W.N(int((s.hold+time.Second)/time.Millisecond))) * time.Millisecond
				}
				c.prog = append(c.prog, s)
			}
			nd.clients = append(nd.clients, c)
		}
		r.nodes = append(r.nodes, nd)
	}
	if W.P(150) {
		// an operator removes a lock row
		k := r.keys[0]
		w.At(time.Duration(W.R(1, 20))*500*time.Millisecond, func() {
			tx := w.db.Begin(0)
			if _, err := tx.Exec("DELETE FROM `resource_lock` WHERE resource = ?", []any{k}); err == nil {
				tx.Commit()
				w.Log("operator removes the row of %s", k)
			} else {
				tx.Rollback()
			}
		})
	}
	r.quiet = true
	if F.N(10) >= 4 {
		r.quiet = false
		w.faultsOn, w.fault.on = true, true
		w.fault.rate = []int{5, 20, 50}[F.N(3)]
		w.fault.crashMax = 3
		for _, k := range []string{"err-before", "err-after", "deadlock", "lock-timeout", "sql-error", "stall", "crash-before", "crash-after", "partition", "slow"} {
			if F.N(2) == 1 {
				w.fault.kinds = append(w.fault.kinds, k)
			}
		}
		if r.ttl-r.renew > 4*time.Second && F.N(3) == 2 {
			w.fault.kinds = append(w.fault.kinds, "clock-jump", "clock-jump")
			r.skew = true
		}
		w.faultEnd = w.start + int64(time.Duration(F.R(1, 60))*time.Second)
		w.drawFocus(11)
	}
	for _, nd := range r.nodes {
		w.At(0, func() { nd.n.Start() })
	}
	w.done = r.done
}

func (r *dlRun) tol() time.Duration {
	if r.skew {
		return 2 * time.Second
	}
	return time.Millisecond // stored times are rounded to milliseconds
}

func (r *dlRun) boot(nd *dlNode, n *Node) {
	w := r.w
	nd.db = openGorm(w)
	nd.db.Config.TranslateError = nd.trans
	self()
	nd.lk = dblock.NewDBLock(nd.db, r.ttl, func(o *dblock.Options) {
		o.Logger = logr.Discard()
		if r.renew != time.Second { // the default
			o.RenewInterval = r.renew
		}
		if !nd.retry { // the default is to retry
			o.Retry = false
		}
	})
	w.Log("%s ready", n.name)
	for _, c := range nd.clients {
		c.cur, c.idle = nil, false
		n.Go(0, func() {
			for c.pc < len(c.prog) {
				s := c.prog[c.pc]
				c.pc++
				w.Sleep(s.pause)
				r.step(c, s)
			}
			c.idle = true
			w.kick()
		})
	}
}

// call runs f as one tracked call on key.
func (r *dlRun) call(c *dlClient, what, key string, f func(k *dlCall)) {
	w, n, _ := self()
	k := &dlCall{cl: c, id: w.newCmd(), key: key, inv: w.now(), hit0: n.hit, what: what, v0: r.vers[key], free: r.free(key)}
	for _, o := range r.calls {
		if o.key == key {
			k.rivals0 = true
		}
	}
	c.cur = k
	r.calls[k.id] = k
	withCmd(k.id, func() { f(k) })
	self()
	c.cur = nil
	delete(r.calls, k.id)
}

func (r *dlRun) free(key string) bool {
	row := r.rows[key]
	if row == nil {
		return true
	}
	return r.wall().Sub(row["updated_at"].(time.Time)) >= r.ttl+r.tol()
}

// wall is the true wall clock.
func (r *dlRun) wall() time.Time { return time.Unix(0, runtime.SimNow()) }

func (r *dlRun) obtain(c *dlClient, ctx context.Context, key string) *dlHold {
	var h *dlHold
	w := r.w
	r.call(c, "lock", key, func(k *dlCall) {
		l, err := c.nd.lk.Lock(ctx, key)
		self()
		w.Log("client %d lock %s -> %v", c.no, key, err)
		r.judge(k, ctx, err)
		if err == nil {
			h = r.got(k, k.wroteID)
			h.l = l
		}
	})
	return h
}

// judge checks the outcome of an attempt to get a lock.
func (r *dlRun) judge(k *dlCall, ctx context.Context, err error) {
	w := r.w
	n := k.cl.nd.n
	if err == nil {
		w.Probe("locked")
		return
	}
	if errors.Is(err, ddd.ErrEntityLocked) {
		w.Probe("refused")
		if k.cl.nd.retry && w.now()-k.inv < 250*time.Millisecond && (ctx == nil || ctx.Err() == nil) {
			w.Fail("C11:gives-up", "client %d gives up on %s after %v although it is to retry", k.cl.no, k.key, w.now()-k.inv)
		}
		if !k.cl.nd.retry && w.now()-k.inv > 100*time.Millisecond+20*time.Duration(w.maxLatUs)*time.Microsecond && w.slowRate == 0 && r.quiet && w.probes["lock-wait"] == 0 {
			w.Fail("C11:retries", "client %d is refused %s only after %v although it is not to retry", k.cl.no, k.key, w.now()-k.inv)
		}
		if k.free && !k.rivals0 && r.vers[k.key] == k.v0 && !r.rival(k) {
			w.Fail("C11:refused-free", "client %d is refused %s although nobody holds it", k.cl.no, k.key)
		}
		return
	}
	w.Probe("lock-error")
	if n.hit == k.hit0 && (ctx == nil || ctx.Err() == nil) && !dbExcuse(err) {
		w.Fail("C11:error", "client %d asking for %s gets %v although nothing failed", k.cl.no, k.key, err)
	}
}

func dbExcuse(err error) bool {
	s := err.Error()
	return strings.Contains(s, "Deadlock") || strings.Contains(s, "Lock wait")
}

// rival: some other call on the key began while k ran.
func (r *dlRun) rival(k *dlCall) bool {
	for _, o := range r.calls {
		if o != k && o.key == k.key {
			return true
		}
	}
	for _, h := range r.holds {
		if h.key == k.key && h.endAt >= k.inv && h.ended {
			return true
		}
	}
	return false
}

// got: a client obtained the key.
func (r *dlRun) got(k *dlCall, id string) *dlHold {
	w := r.w
	now := r.wall()
	h := &dlHold{cl: k.cl, key: k.key, id: id, inc: k.cl.nd.n.inc, since: now}
	if row := r.rows[k.key]; row != nil && row["locker_id"] == id {
		h.lease = row["updated_at"].(time.Time).Add(r.ttl)
	}
	if id == "" {
		w.Fail("C11:unrecorded", "client %d obtains %s but stored nothing", k.cl.no, k.key)
		id = "none"
	}
	for _, o := range r.holds {
		if o.key != k.key || o.ended {
			continue
		}
		if o.id == id {
			w.Fail("C11:same-owner", "clients %d and %d hold %s with the same owner id", k.cl.no, o.cl.no, k.key)
		}
		if now.Add(r.tol()).Before(o.lease) && now.Add(r.tol()).Before(h.lease) {
			w.Fail("C11:two-holders", "client %d obtains %s while client %d holds it for another %v", k.cl.no, k.key, o.cl.no, o.lease.Sub(now))
		}
	}
	r.holds = append(r.holds, h)
	return h
}

func (r *dlRun) unlock(c *dlClient, h *dlHold) {
	w := r.w
	r.call(c, "unlock", h.key, func(k *dlCall) {
		row := r.rows[h.key]
		mine := row != nil && row["locker_id"] == h.id
		h.ended, h.endAt = true, w.now()
		k.unlock = h.id
		err := c.nd.lk.UnLock(context.Background(), h.l)
		self()
		h.endAt = w.now()
		w.Log("client %d unlock %s -> %v", c.no, h.key, err)
		if err == nil {
			w.Probe("unlocked")
			if row := r.rows[h.key]; row != nil && row["locker_id"] == h.id {
				w.Fail("C11:not-released", "client %d unlocked %s but still owns it", c.no, h.key)
			}
		} else if mine && r.vers[h.key] == k.v0 && c.nd.n.hit == k.hit0 && !dbExcuse(err) {
			w.Fail("C11:unlock-failed", "client %d cannot unlock %s it owns: %v", c.no, h.key, err)
		}
	})
}

func (r *dlRun) step(c *dlClient, s dlStep) {
	w := r.w
	switch s.kind {
	case 0, 2, 4:
		ctx := context.Background()
		if s.kind == 4 {
			var cancel context.CancelFunc
			ctx, cancel = context.WithTimeout(ctx, 300*time.Millisecond)
			defer cancel()
		}
		h := r.obtain(c, ctx, s.key)
		if h == nil {
			return
		}
		w.Sleep(s.hold)
		if s.kind == 2 {
			w.Probe("abandoned")
			w.Log("client %d abandons %s", c.no, s.key)
			return
		}
		r.unlock(c, h)
		if s.twice {
			w.Sleep(50 * time.Millisecond)
			r.unlock(c, h)
		}
	case 1, 3, 5:
		ctx := context.Background()
		if s.kind == 5 {
			var cancel context.CancelFunc
			ctx, cancel = context.WithTimeout(ctx, s.after)
			defer cancel()
		}
		var h *dlHold
		ran := 0
		r.call(c, "run", s.key, func(k *dlCall) {
			var err error
			func() {
				defer func() {
					if p := recover(); p != nil {
						if p != "business panic" {
							panic(p)
						}
						w.Probe("run-panic")
					}
				}()
				err = c.nd.lk.Run(ctx, s.key, func(fctx context.Context) {
					self()
					ran++
					h = r.running(c, k, s, fctx, ctx)
					k.unlock = h.id
					h.ended, h.endAt = true, w.now()
					if s.kind == 3 {
						panic("business panic")
					}
				})
			}()
			self()
			w.Log("client %d run %s -> %v ran %d", c.no, s.key, err, ran)
			if err != nil {
				r.judge(k, ctx, err)
			}
			if (err == nil) != (ran == 1) {
				w.Fail("C11:run", "Run of %s returned %v and ran its function %d times", s.key, err, ran)
			}
			if h != nil {
				h.endAt = w.now()
				if row := r.rows[h.key]; row != nil && row["locker_id"] == h.id && c.nd.n.hit == k.hit0 && r.quiet {
					w.Fail("C11:not-released", "Run of %s ended but client %d still owns it", h.key, c.no)
				}
			}
		})
	}
}

// running is the function run under the lock.
func (r *dlRun) running(c *dlClient, k *dlCall, s dlStep, ctx, caller context.Context) *dlHold {
	w := r.w
	_, n, _ := self()
	// the owner id is the one this call stored
	h := r.got(k, k.wroteID)
	h.runs, h.inFn = true, true
	w.Log("client %d runs under %s for %v", c.no, s.key, s.hold)
	w.Probe("run")
	end := w.now() + s.hold
	calm := n.hit
	var calmAt time.Duration
	margin := r.ttl - r.renew
	for w.now() < end && ctx.Err() == nil {
		t := time.NewTimer(min(end-w.now(), 100*time.Millisecond))
		select {
		case <-t.C:
		case <-ctx.Done():
		}
		t.Stop()
		self()
		now := w.now()
		if n.hit != calm || n.cut > runtime.SimNow() || n.slow > runtime.SimNow() {
			calm, calmAt = n.hit, now
		}
		row := r.rows[h.key]
		mine := row != nil && row["locker_id"] == h.id
		if !mine && !h.lost {
			h.lost, h.lostAt = true, now
		}
		if r.quiet && mine && margin > 2*time.Second && !h.lost && r.wall().Sub(row["updated_at"].(time.Time)) > r.ttl {
			w.Fail("C11:not-renewed", "the lease of %s ran out while client %d was running under it", h.key, c.no)
		}
		if h.lost && ctx.Err() == nil && now-max(h.lostAt, calmAt) > r.renew+6*time.Second && !w.faultsActive() && w.parkedOn(n) == 0 {
			w.Fail("C11:not-told", "client %d keeps running under %s which it lost %v ago", c.no, h.key, now-h.lostAt)
		}
	}
	if ctx.Err() != nil {
		w.Probe("run-cancelled")
		if caller.Err() != nil {
			w.Probe("run-cancelled-by-caller")
		} else if r.quiet && !h.lost {
			w.Fail("C11:cancelled", "the function under %s is told to stop although client %d still owns it", h.key, c.no)
		}
	} else if now := w.now(); s.hold > r.ttl+3*time.Second && !h.lost {
		w.Probe("run-renewed")
		_ = now
	}
	h.inFn = false
	return h
}

// parkedOn counts the operations of n that have not ended.
func (w *World) parkedOn(n *Node) int {
	c := 0
	for _, o := range w.parked {
		if o.node == n && !o.gone && o.inc == n.inc {
			c++
		}
	}
	return c
}

func (r *dlRun) onStmt(tag uint64, q string, args []any) {
	w := r.w
	if !strings.HasPrefix(q, "UPDATE") {
		return
	}
	for _, h := range r.holds {
		if !h.runs || !h.ended || h.inc != tagInc(tag) || h.cl.nd.n.idx != tagNode(tag) {
			continue
		}
		if r.calls[h.callID(r)] == nil && w.now() > h.endAt {
			for _, a := range args {
				// a statement that was under way when Run ended may still arrive
				if a == h.id && r.quiet && w.now() > h.endAt+3*time.Second {
					w.Fail("C11:renews-after-end", "client %d renews %s after Run has returned", h.cl.no, h.key)
				}
			}
		}
	}
}

func (h *dlHold) callID(r *dlRun) uint64 {
	for id, k := range r.calls {
		if k.wroteID == h.id {
			return id
		}
	}
	return 0
}

func (r *dlRun) onCommit(tx *simdb.Tx, chs []simdb.Change) {
	w := r.w
	now := r.wall()
	for _, ch := range chs {
		if ch.Table != "resource_lock" {
			continue
		}
		row := ch.After
		if row == nil {
			row = ch.Before
		}
		key := row["resource"].(string)
		if ch.After != nil {
			if ch.Before != nil && ch.Before["updated_at"] == ch.After["updated_at"] && ch.Before["locker_id"] == ch.After["locker_id"] {
				continue
			}
			r.rows[key] = ch.After
		} else {
			delete(r.rows, key)
		}
		r.vers[key]++
		k := r.calls[tagCmd(tx.Tag)]
		if tx.Tag == 0 {
			for _, h := range r.holds {
				if h.key == key {
					h.ended, h.endAt = true, w.now()
				}
			}
			continue
		}
		var before, after string
		if ch.Before != nil {
			before = ch.Before["locker_id"].(string)
		}
		if ch.After != nil {
			after = ch.After["locker_id"].(string)
		}
		w.Log("row %s: %q -> %q", key, before, after)
		switch {
		case after != "" && after != before:
			if k != nil {
				k.wroteID = after
			}
			if before != "" {
				w.Probe("taken-over")
				if left := ch.Before["updated_at"].(time.Time).Add(r.ttl).Sub(now); left > r.tol() {
					w.Fail("C11:stolen", "%s is taken over %v before the lease of its holder is over", key, left)
				}
			}
		case after != "":
			for _, h := range r.holds {
				if h.id == after {
					h.lease = ch.After["updated_at"].(time.Time).Add(r.ttl)
					w.Probe("renewed")
				}
			}
		default:
			if k != nil && k.unlock != before && k.unlock != "" {
				w.Fail("C11:foreign-unlock", "client %d removes the lock of somebody else on %s", k.cl.no, key)
			}
		}
	}
}

func (r *dlRun) done() bool {
	w := r.w
	for _, nd := range r.nodes {
		if !nd.n.alive {
			return false
		}
		for _, c := range nd.clients {
			if !c.idle {
				return false
			}
		}
	}
	if !r.probeD {
		// everybody is done: abandoned locks have to become available
		if w.faultsActive() {
			if r.doneT == 0 {
				r.doneT = 1
				w.At(time.Duration(w.faultEnd-runtime.SimNow())+time.Second, func() {})
			}
			return false
		}
		r.probeD = true
		w.faultsOn = false
		for _, nd := range r.nodes {
			nd.n.cut, nd.n.slow = 0, 0
		}
		nd := r.nodes[0]
		c := &dlClient{nd: nd, no: 99}
		nd.n.Go(0, func() {
			w.Sleep(r.ttl + 170*time.Second + 2*r.tol())
			for _, key := range r.keys {
				if h := r.obtain(c, context.Background(), key); h != nil {
					r.unlock(c, h)
				} else {
					w.Fail("C11:stuck", "%s stays locked although nobody uses it any more", key)
				}
				r.probed++
			}
		})
		return false
	}
	return r.probed == len(r.keys)
}

// dlLeaks counts goroutines started by the lock package.
func dlLeaks() int {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	return bytes.Count(buf, []byte("created by github.com/bytedance/dddfirework/lock/db."))
}

func dlFinal(w *World) {
	r := w.extra.(*dlRun)
	if w.why == "time" {
		for _, nd := range r.nodes {
			for _, c := range nd.clients {
				if c.cur != nil {
					w.Fail("C11:hang", "%s of %s by client %d never returns", c.cur.what, c.cur.key, c.no)
				}
				w.Log("client %d pc %d/%d", c.no, c.pc, len(c.prog))
			}
		}
		w.Fail("C11:hang", "the clients never end (probe %v)", r.probeD)
		return
	}
	crashed := false
	for _, nd := range r.nodes {
		if nd.n.inc > 1 {
			crashed = true
		}
	}
	if !r.leakChk || crashed || w.why != "done" {
		return
	}
	w.Probe("leak-checked")
	if n := dlLeaks() - r.leak0; n > 0 {
		w.Fail("C11:renewer-left", "%d goroutine(s) that renew a lock are left although every Run has returned", n)
	}
}
