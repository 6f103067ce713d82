package main

import (
	"context"
	"fmt"
	"sort"
	"sync"
	"time"

	ddd "github.com/bytedance/dddfirework"
	mem "github.com/bytedance/dddfirework/eventbus/mem"
)

// The memory bus (C14): concurrent dispatchers, one consumer, a context that
// ends at some point.

type mbEvt struct {
	ev      *ddd.DomainEvent
	disp    *mbDisp
	pos     int
	handled int
	order   int
}

type mbDisp struct {
	no       int
	n        int
	nested   bool
	pause    time.Duration
	inv, ret int // logical times, 0: not yet
	invT     time.Duration
	evs      []*mbEvt
	ctx      int // 1 already cancelled, 2 cancelled after limit, 3 deadline
	limit    time.Duration
	ended    bool // its context ended before it returned
	refused  bool // it returned an error
}

// mbCtx is a context whose Done calls are counted once it has ended.
type mbCtx struct {
	context.Context
	r *mbRun
}

func (c *mbCtx) Done() <-chan struct{} {
	if c.Context.Err() != nil {
		c.r.polls++
		if c.r.polls > 2000 {
			c.r.w.Fail("C14:spin", "the bus goes on polling its ended context")
			select {}
		}
	}
	return c.Context.Done()
}

type mbRun struct {
	w       *World
	bus     *mem.MemoryEventBus
	cap     int
	tick    int
	polls   int
	clients [][]*mbDisp
	pcs     []int
	byID    map[string]*mbEvt
	order   []*mbEvt
	running int
	startT  time.Duration
	twice   bool
	endT    time.Duration // when the context ends, 0: never
	endAt   int
	left    int
	hMode   int
	ctx     *mbCtx
	cancel  context.CancelFunc
	started bool
	mu      sync.Mutex
	nested  int
	nest    bool
	horizon time.Duration
	custom  error
}

func mbScenario() *Scenario {
	return &Scenario{Name: "membus", Setup: mbSetup, Final: mbFinal, Limit: 20 * time.Minute, Steps: 60000,
		Real:   []string{"eventbus/mem (all of it)"},
		Stub:   []string{"event handlers (simulated work, delays and errors)"},
		Assume: []string{"the handler is registered before Start and does not panic", "what happens to events still queued when the context ends is unspecified"},
	}
}

func mbSetup(w *World) {
	W := w.W
	r := &mbRun{w: w, byID: map[string]*mbEvt{}}
	w.extra = r
	r.cap = []int{100, 0, 1, 2, 5, 17}[W.N(6)]
	r.hMode = W.N(4)
	r.twice = W.P(300)
	if W.P(400) {
		r.startT = time.Duration(W.N(2000)) * time.Millisecond
	}
	if W.P(500) {
		r.endT = r.startT + time.Duration(W.N(4000))*time.Millisecond
		if W.P(60) {
			r.endT = r.startT
		}
	}
	if w.seamRate == 0 {
		w.seamRate = 200
	}
	no := 0
	for i := W.R(1, 4); i > 0; i-- {
		var c []*mbDisp
		for j := W.R(1, 8); j > 0; j-- {
			no++
			d := &mbDisp{no: no, n: W.R(1, 4)}
			if W.P(50) {
				d.n = 0
			}
			if W.P(30) {
				d.n = 30
			}
			if W.P(400) {
				d.pause = time.Duration(W.N(800)) * time.Millisecond
			}
			if W.P(250) {
				d.ctx = W.R(1, 3)
				d.limit = time.Duration(W.N(6)*W.N(6)) * 40 * time.Millisecond
			}
			c = append(c, d)
		}
		r.clients = append(r.clients, c)
	}
	r.pcs = make([]int, len(r.clients))
	total := 0
	for _, c := range r.clients {
		for _, d := range c {
			total += d.n
		}
	}
	// a handler may raise events itself only while the queue has room for
	// all of them: with a full queue it would wait for itself, which is what
	// a bounded queue with one consumer does
	r.nest = total+20 < r.cap
	r.horizon = 300 * time.Second
	n := w.addNode("n1", func(n *Node) { r.boot(n) })
	w.At(0, func() { n.Start() })
	w.done = r.done
	var tick func()
	tick = func() { w.At(5*time.Second, tick) }
	w.At(0, tick)
}

func (r *mbRun) done() bool {
	if r.endT > 0 {
		return r.w.now() > r.endT+20*time.Second
	}
	if r.left > 0 || !r.started {
		return false
	}
	for _, e := range r.byID {
		if e.handled == 0 && !e.disp.refused {
			return false
		}
	}
	// nothing more may come
	return r.w.now() > r.startT+20*time.Second && r.running == 0
}

func (r *mbRun) boot(n *Node) {
	w := r.w
	r.bus = mem.NewEventBus(r.cap)
	r.bus.RegisterEventHandler(r.handle)
	c, cancel := context.WithCancel(context.Background())
	r.ctx, r.cancel = &mbCtx{c, r}, cancel
	for i, cl := range r.clients {
		r.left++
		n.Go(0, func() {
			for _, d := range cl {
				r.pcs[i]++
				w.Sleep(d.pause)
				w.Seam(fmt.Sprintf("client%d", i))
				r.dispatch(d)
			}
			r.left--
			w.kick()
		})
	}
	n.Go(0, func() {
		w.Sleep(r.startT)
		r.bus.Start(r.ctx)
		r.started = true
		w.Log("bus starts")
		if r.twice {
			w.Seam("start")
			r.bus.Start(r.ctx)
		}
	})
	if r.endT > 0 {
		n.Go(0, func() {
			w.Sleep(r.endT)
			w.Log("context ends")
			w.inject("context-end")
			r.tick++
			r.endAt = r.tick
			cancel()
		})
	}
}

func (r *mbRun) dispatch(d *mbDisp) {
	w := r.w
	var evs []*ddd.DomainEvent
	for i := 0; i < d.n; i++ {
		ev := &ddd.DomainEvent{ID: fmt.Sprintf("e%d.%d", d.no, i), Type: "t", Payload: []byte(fmt.Sprintf("p%d.%d", d.no, i))}
		me := &mbEvt{ev: ev, disp: d, pos: i}
		d.evs = append(d.evs, me)
		evs = append(evs, ev)
		r.byID[ev.ID] = me
	}
	r.tick++
	d.inv, d.invT = r.tick, w.now()
	w.Log("dispatch %d of %d events", d.no, d.n)
	ctx, cancel := context.Background(), func() {}
	switch d.ctx {
	case 1:
		ctx, cancel = context.WithCancel(ctx)
		cancel()
		w.inject("dispatch-cancelled")
	case 2:
		ctx, cancel = context.WithCancel(ctx)
		c := cancel
		w.At(d.limit, func() { c() })
	case 3:
		ctx, cancel = context.WithTimeout(ctx, d.limit)
	}
	err := r.bus.Dispatch(ctx, evs...)
	self()
	d.ended, d.refused = ctx.Err() != nil, err != nil
	cancel()
	r.tick++
	d.ret = r.tick
	w.Log("dispatch %d -> %v", d.no, err)
	w.Probe("dispatch")
	if d.ended && d.ctx > 1 {
		w.inject("dispatch-cancelled")
	}
	if err != nil && r.endAt == 0 && !d.ended {
		w.Fail("C14:error", "dispatch %d fails: %v", d.no, err)
	}
}

func (r *mbRun) handle(ctx context.Context, ev *ddd.DomainEvent) error {
	w, _, _ := self()
	me := r.byID[ev.ID]
	w.Log("handler gets %s", ev.ID)
	w.Probe("handled")
	if me == nil || me.ev != ev && string(me.ev.Payload) != string(ev.Payload) {
		w.Fail("C14:foreign", "the handler gets an event nobody dispatched: %v", ev)
		return nil
	}
	if r.endAt > 0 {
		if me.disp.inv > r.endAt {
			w.Fail("C14:after-end", "event %s dispatched after the context ended is handled", ev.ID)
		}
		if w.now() > r.endT+time.Second+6*time.Second {
			w.Fail("C14:after-end", "event %s is handled %v after the context ended", ev.ID, w.now()-r.endT)
		}
	}
	if r.running > 0 {
		w.Fail("C14:parallel", "event %s is handled while another one is", ev.ID)
	}
	me.handled++
	if me.handled > 1 {
		w.Fail("C14:twice", "event %s is handled again", ev.ID)
	}
	for i := len(r.order) - 1; i >= 0; i-- {
		o := r.order[i]
		if o.disp == me.disp && o.pos > me.pos || o.disp != me.disp && me.disp.ret != 0 && me.disp.ret < o.disp.inv {
			w.Fail("C14:order", "event %s is handled after %s", ev.ID, o.ev.ID)
		}
	}
	// events of the same dispatch are handed over one after the other
	if me.pos > 0 && me.disp.ctx == 0 && me.disp.evs[me.pos-1].handled == 0 {
		w.Fail("C14:lost", "event %s is handled but %s before it was not", ev.ID, me.disp.evs[me.pos-1].ev.ID)
	}
	r.order = append(r.order, me)
	r.running++
	switch r.hMode {
	case 1:
		w.Sleep(time.Duration(w.W.N(300)) * time.Millisecond)
	case 2:
		if w.W.N(8) == 7 {
			w.Sleep(time.Duration(w.W.N(3000)) * time.Millisecond)
		}
	}
	w.Seam("handler " + ev.ID)
	if r.hMode == 3 && r.nest && w.W.N(6) == 5 && r.nested < 20 {
		// a handler that raises further events
		r.nested++
		d := &mbDisp{no: 1000 + r.nested, n: 1, nested: true}
		r.dispatch(d)
	}
	r.running--
	if w.W.N(6) == 5 {
		w.Probe("handler-error")
		return errBiz
	}
	return nil
}

func mbFinal(w *World) {
	r := w.extra.(*mbRun)
	if w.why == "time" {
		if r.left > 0 {
			w.Fail("C14:hang", "dispatchers are blocked for ever although the bus runs")
			return
		}
		for _, id := range r.ids() {
			if e := r.byID[id]; e.handled == 0 && !e.disp.refused {
				w.Fail("C14:lost", "event %s is never handled although the bus runs", id)
				return
			}
		}
		w.Fail("C14:hang", "a handler does not end")
		return
	}
	if r.endT > 0 {
		// every event whose dispatch was over long before the end was handled
		return
	}
	if w.why != "done" {
		return
	}
	for _, id := range r.ids() {
		if e := r.byID[id]; e.handled != 1 && !(e.disp.refused && e.handled == 0) {
			w.Fail("C14:lost", "event %s was handled %d times", id, r.byID[id].handled)
		}
	}
}

func (r *mbRun) ids() []string {
	ids := make([]string, 0, len(r.byID))
	for id := range r.byID {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}
