package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"time"

	ddd "github.com/bytedance/dddfirework"
	rlock "github.com/bytedance/dddfirework/lock/redis"
	"github.com/redis/go-redis/v9"
)

// The redis lock (C12): clients on several nodes contend for a few keys.

type rlCall struct {
	cl      *rlClient
	id      uint64
	what    string
	key     string
	inv     time.Duration
	hit0    int
	rivals  bool
	free0   bool   // the key was free when the call began
	ver0    int    // changes of the key before the call
	val     string // what the call stored
	valExp  int64
	setAt   time.Duration
	own     string // value of the handle being released
	removed bool
}

type rlHold struct {
	cl    *rlClient
	key   string
	val   string
	lease time.Duration // server time at which it runs out
	ended bool
	inc   int
	l     any
}

type rlClient struct {
	nd   *rlNode
	no   int
	prog []dlStep
	pc   int
	idle bool
}

type rlNode struct {
	n       *Node
	lk      *rlock.RedisLock
	retries int
	clients []*rlClient
}

type rlRun struct {
	w         *World
	s         *redisSim
	nodes     []*rlNode
	ttl       time.Duration
	keys      []string
	calls     map[uint64]*rlCall
	all       map[uint64]*rlCall // ended calls may still reach the server
	holds     []*rlHold
	vers      map[string]int
	freed     map[string]time.Duration // since when a free key is free
	dirty     map[string]bool          // a request of a caller that gave up may arrive
	quiet     bool
	left      int
	probing   bool
	opRemoved map[string]bool
	probed    int
	ctxTO     bool
}

func rlScenario() *Scenario {
	return &Scenario{Name: "redislock", Setup: rlSetup, Final: rlFinal, Limit: 30 * time.Minute, Steps: 60000,
		Real:   []string{"lock/redis (all of it)", "bsm/redislock", "go-redis client: protocol, pool, retries, timeouts"},
		Stub:   []string{"redis server (in-memory model: SET NX PX, expiry, the lock scripts; no replication, no loss of its data)", "network between client and server"},
		Assume: []string{"a single redis server that keeps its data and its own clock"},
	}
}

func rlSetup(w *World) {
	W, F := w.W, w.F
	r := &rlRun{w: w, calls: map[uint64]*rlCall{}, all: map[uint64]*rlCall{}, vers: map[string]int{}, freed: map[string]time.Duration{}, dirty: map[string]bool{}, opRemoved: map[string]bool{}}
	w.extra = r
	r.s = newRedis(w)
	r.s.hello = W.P(500)
	r.s.onSet, r.s.onDel = r.onSet, r.onDel
	r.s.onExp = func(key string) { r.vers[key]++ }
	r.ttl = []time.Duration{5 * time.Second, time.Second, 10 * time.Second, 500 * time.Millisecond, 3 * time.Second, 1500 * time.Millisecond, 30 * time.Second}[W.N(7)]
	r.ctxTO = W.P(400)
	names := lockNames[W.N(len(lockNames))]
	r.keys = append(r.keys, append([]string{names[0], names[1]}, "key3")[:W.R(1, 3)]...)
	for i := W.R(1, 3); i > 0; i-- {
		nd := &rlNode{retries: []int{0, 0, -1, 1, 5}[W.N(5)]}
		nd.n = w.addNode(fmt.Sprintf("n%d", i), func(n *Node) { r.boot(nd, n) })
		for j := W.R(1, 3); j > 0; j-- {
			c := &rlClient{nd: nd, no: r.left}
			r.left++
			for k := W.R(1, 6); k > 0; k-- {
				// 0 hold and unlock, 2 abandon, 4 with a deadline
				s := dlStep{kind: []int{0, 0, 0, 0, 2, 4}[W.N(6)], key: r.keys[W.N(len(r.keys))]}
				switch W.N(5) {
				case 1:
					s.hold = time.Duration(W.N(1000)) * time.Millisecond
				case 2:
					s.hold = time.Duration(W.N(int(r.ttl/time.Millisecond)+1)) * time.Millisecond
				case 3:
					s.hold = r.ttl + time.Duration(W.R(0, 200)-100)*time.Millisecond
				case 4:
					s.hold = r.ttl * time.Duration(W.R(2, 6)) / 2
				}
				switch W.N(4) {
				case 1:
					s.pause = time.Duration(W.N(500)) * time.Millisecond
				case 2:
					s.pause = time.Duration(W.N(int(r.ttl/time.Millisecond)+1)) * time.Millisecond
				case 3:
					s.pause = r.ttl + time.Duration(W.R(0, 300)-100)*time.Millisecond
				}
				s.twice = W.P(100)
				c.prog = append(c.prog, s)
			}
			nd.clients = append(nd.clients, c)
		}
		r.nodes = append(r.nodes, nd)
	}
	if W.P(150) {
		// an operator removes a lock
		k := r.keys[0]
		w.At(time.Duration(W.R(1, 20))*500*time.Millisecond, func() {
			w.Log("operator removes %s", k)
			r.s.del(0, k)
		})
	}
	r.quiet = true
	if F.N(10) >= 4 {
		r.quiet = false
		w.faultsOn, w.fault.on = true, true
		w.fault.rate = []int{5, 20, 50, 120}[F.N(4)]
		w.fault.crashMax = 3
		for _, k := range []string{"err-before", "err-after", "stall", "crash-before", "crash-after", "partition", "slow"} {
			if F.N(2) == 1 {
				w.fault.kinds = append(w.fault.kinds, k)
			}
		}
		w.faultEnd = w.start + int64(time.Duration(F.R(1, 60))*time.Second)
	}
	for _, nd := range r.nodes {
		w.At(0, func() { nd.n.Start() })
	}
	w.done = r.done
	var tick func()
	tick = func() { w.At(5*time.Second, tick) }
	w.At(0, tick)
}

func (r *rlRun) boot(nd *rlNode, n *Node) {
	w := r.w
	cli := redis.NewClient(&redis.Options{Addr: "redis:6379", Dialer: r.s.dial, PoolSize: 64, MaxRetries: nd.retries, ContextTimeoutEnabled: r.ctxTO})
	nd.lk = rlock.NewRedisLock(cli, r.ttl)
	w.Log("%s ready", n.name)
	for _, c := range nd.clients {
		c.idle = false
		n.Go(0, func() {
			for c.pc < len(c.prog) {
				s := c.prog[c.pc]
				c.pc++
				w.Sleep(s.pause)
				r.step(c, s)
			}
			c.idle = true
			w.kick()
		})
	}
}

func (r *rlRun) onSet(cmd uint64, key string, e *rdEntry) {
	w := r.w
	r.vers[key]++
	delete(r.freed, key)
	k := r.all[cmd]
	w.Log("redis %s = %s for %v", key, e.val, time.Duration(e.exp-runtime.SimNow()))
	if k == nil {
		return
	}
	if k.what != "lock" || k.key != key {
		w.Fail("C12:wrong-key", "%s of %s by client %d writes %s", k.what, k.key, k.cl.no, key)
		return
	}
	if e.exp == 0 {
		w.Fail("C12:no-expiry", "client %d stores the lock of %s without a time to live", k.cl.no, key)
	}
	k.val, k.valExp, k.setAt = e.val, e.exp, w.now()
}

func (r *rlRun) onDel(cmd uint64, key string, e *rdEntry) {
	w := r.w
	r.vers[key]++
	r.freed[key] = w.now()
	w.Log("redis %s (%s) removed", key, e.val)
	k := r.all[cmd]
	if k == nil {
		r.opRemoved[e.val] = true
		for _, h := range r.holds {
			if h.key == key {
				h.ended = true // by the operator
			}
		}
		return
	}
	if k.what == "lock" && e.cmd == cmd {
		return // gives back what it stored itself
	}
	if e.cmd == cmd || k.own == e.val {
		k.removed = true
		return
	}
	w.Fail("C12:foreign-unlock", "%s of %s by client %d removes the lock of somebody else (%s)", k.what, k.key, k.cl.no, e.val)
}

func (r *rlRun) call(c *rlClient, what, key string, f func(k *rlCall)) {
	w, n, _ := self()
	k := &rlCall{cl: c, id: w.newCmd(), key: key, inv: w.now(), hit0: n.hit, what: what, ver0: r.vers[key], free0: r.s.get(key) == nil}
	k.ver0 = r.vers[key]
	for _, o := range r.calls {
		if o.key == key {
			o.rivals, k.rivals = true, true
		}
	}
	r.calls[k.id], r.all[k.id] = k, k
	withCmd(k.id, func() { f(k) })
	self()
	delete(r.calls, k.id)
}

func (r *rlRun) obtain(c *rlClient, ctx context.Context, key string) *rlHold {
	var h *rlHold
	w := r.w
	n := c.nd.n
	r.call(c, "lock", key, func(k *rlCall) {
		l, err := c.nd.lk.Lock(ctx, key)
		self()
		took := w.now() - k.inv
		alive := ctx.Err() == nil
		// a client that minds deadlines may run into the one the retries have
		late := r.ctxTO && ctx != context.Background()
		if took > r.ttl+2990*time.Millisecond {
			// only if the round trips of the retries can add up to more than the
			// time to live that is left for them
			late = late || w.slowRate > 0 || 35*8*time.Duration(w.maxLatUs)*time.Microsecond+300*time.Millisecond > r.ttl
		}
		if dl, ok := ctx.Deadline(); ok && time.Until(dl) < 10*time.Millisecond {
			alive = false
		}
		w.Log("client %d lock %s -> %v", c.no, key, err)
		calm := n.hit == k.hit0 && n.cut+int64(5*time.Second) < w.start+int64(k.inv) && n.slow < w.start+int64(k.inv)
		if err == nil {
			w.Probe("locked")
			h = r.got(k, l)
			return
		}
		slack := 300*time.Millisecond + 3*time.Duration(w.maxLatUs)*time.Microsecond*5
		if w.slowRate > 0 {
			slack += 2 * time.Second
		}
		if errors.Is(err, ddd.ErrEntityLocked) {
			w.Probe("refused")
			if k.free0 && r.vers[key] == k.ver0 && !k.rivals && calm {
				w.Fail("C12:refused-free", "client %d is refused %s although nobody holds it", c.no, key)
			}
			if calm && took < time.Second && alive {
				w.Fail("C12:gives-up", "client %d gives up on %s after %v", c.no, key, took)
			}
			if t, ok := r.freed[key]; ok && calm && r.s.get(key) == nil && !k.rivals && t > k.inv && w.now()-t > slack && alive {
				w.Fail("C12:not-retried", "client %d is refused %s which is free since %v", c.no, key, w.now()-t)
			}
		} else {
			w.Probe("lock-error")
			if calm && !late && alive {
				w.Fail("C12:error", "client %d asking for %s gets %v although nothing failed", c.no, key, err)
			}
			if !calm {
				r.dirty[key] = true
			}
		}
		if calm && took > max(3*time.Second, r.ttl)+4*time.Second+3*slack {
			w.Fail("C12:hang", "client %d is refused %s only after %v", c.no, key, took)
		}
		if calm && !late && k.val != "" {
			if e := r.s.get(key); e != nil && e.val == k.val {
				w.Fail("C12:left-locked", "client %d is told it does not have %s but its lock is stored", c.no, key)
			}
		}
	})
	return h
}

func (r *rlRun) got(k *rlCall, l any) *rlHold {
	w := r.w
	now := w.now()
	h := &rlHold{cl: k.cl, key: k.key, val: k.val, inc: k.cl.nd.n.inc, l: l, ended: r.opRemoved[k.val]}
	if k.val == "" {
		w.Fail("C12:unrecorded", "client %d obtains %s but nothing was stored", k.cl.no, k.key)
	} else {
		h.lease = k.setAt + r.ttl
		if d := time.Duration(k.valExp-w.start) - h.lease; d > time.Millisecond || d < -time.Millisecond {
			w.Fail("C12:wrong-ttl", "client %d obtains %s for %v more than the time to live %v", k.cl.no, k.key, d, r.ttl)
		}
	}
	for _, o := range r.holds {
		if o.key == k.key && !o.ended && !h.ended && now < o.lease && now < h.lease {
			w.Fail("C12:two-holders", "client %d obtains %s while client %d holds it for another %v", k.cl.no, k.key, o.cl.no, o.lease-now)
		}
		if o.key == k.key && o.val == h.val && h.val != "" {
			w.Fail("C12:same-token", "client %d obtains %s with a token used before", k.cl.no, k.key)
		}
	}
	r.holds = append(r.holds, h)
	return h
}

func (r *rlRun) unlock(c *rlClient, h *rlHold) {
	w := r.w
	n := c.nd.n
	r.call(c, "unlock", h.key, func(k *rlCall) {
		k.own = h.val
		h.ended = true
		inTime := w.now() < h.lease
		err := c.nd.lk.UnLock(context.Background(), h.l)
		self()
		w.Log("client %d unlock %s -> %v", c.no, h.key, err)
		calm := n.hit == k.hit0 && n.cut+int64(5*time.Second) < w.start+int64(k.inv) && n.slow < w.start+int64(k.inv)
		e := r.s.get(h.key)
		switch {
		case err == nil:
			w.Probe("unlocked")
			// a request that got lost on the way may arrive after the release and
			// store the lock again, until it expires
			if e != nil && e.val == h.val && !k.removed {
				w.Fail("C12:not-released", "client %d unlocked %s but its lock is still stored", c.no, h.key)
			}
			if !k.removed && calm {
				w.Fail("C12:unlock-lies", "client %d is told it released %s which it had lost", c.no, h.key)
			}
		case calm && inTime && (k.removed || e != nil && e.val == h.val) && w.now() < h.lease:
			w.Fail("C12:unlock-failed", "client %d cannot unlock %s it holds: %v", c.no, h.key, err)
		default:
			w.Probe("unlock-error")
		}
	})
}

func (r *rlRun) step(c *rlClient, s dlStep) {
	w := r.w
	ctx := context.Background()
	if s.kind == 4 {
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(ctx, 300*time.Millisecond)
		defer cancel()
	}
	h := r.obtain(c, ctx, s.key)
	if h == nil {
		return
	}
	w.Sleep(s.hold)
	w.Seam("hold")
	if s.kind == 2 {
		w.Probe("abandoned")
		return
	}
	r.unlock(c, h)
	if s.twice {
		w.Sleep(50 * time.Millisecond)
		r.unlock(c, h)
	}
}

func (r *rlRun) done() bool {
	w := r.w
	for _, nd := range r.nodes {
		if !nd.n.alive {
			return false
		}
		for _, c := range nd.clients {
			if !c.idle {
				return false
			}
		}
	}
	if !r.probing {
		if w.faultsActive() {
			return false
		}
		r.probing = true
		w.faultsOn = false
		for _, nd := range r.nodes {
			nd.n.cut, nd.n.slow = 0, 0
		}
		c := &rlClient{nd: r.nodes[0], no: 99}
		c.nd.n.Go(0, func() {
			w.Sleep(r.ttl + 100*time.Second)
			for _, key := range r.keys {
				if h := r.obtain(c, context.Background(), key); h != nil {
					r.unlock(c, h)
				} else {
					w.Fail("C12:stuck", "%s stays locked although nobody uses it any more", key)
				}
				r.probed++
			}
			w.kick()
		})
		return false
	}
	return r.probed == len(r.keys)
}

func rlFinal(w *World) {
	r := w.extra.(*rlRun)
	if w.why == "time" {
		for _, k := range r.calls {
			w.Fail("C12:hang", "%s of %s by client %d never returns", k.what, k.key, k.cl.no)
		}
		w.Fail("C12:hang", "the clients never end")
	}
}
