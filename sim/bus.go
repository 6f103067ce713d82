package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"

	ddd "github.com/bytedance/dddfirework"
	eb "github.com/bytedance/dddfirework/eventbus/mysql"
	exec "github.com/bytedance/dddfirework/executor/mysql"
	"github.com/go-logr/logr"

	"vsim/simdb"
)

// ---- the business side: one table, one entity, events with a routing key

type Doc struct {
	ddd.BaseEntity
	V int64
}

type DocPO struct {
	ID string `gorm:"primaryKey;type:varchar(64);column:id"`
	V  int64  `gorm:"column:v"`
}

func (o *DocPO) GetID() string     { return o.ID }
func (o *DocPO) TableName() string { return "doc" }

type BizEvent struct {
	T      string
	Key    string
	Sender string
	Data   string `json:",omitempty"`
	N      int64
}

var busData = []string{"", "", "plain", "a<b>&\u2028\"'`\\ü\n\t\x00", "%d %s ? :x @y --", "语言🙂", strings.Repeat("long text ", 900)}

func (e *BizEvent) GetType() ddd.EventType { return ddd.EventType(e.T) }
func (e *BizEvent) GetSender() string      { return e.Sender }

var busTypes = []string{"bus_a", "bus_b", "bus_tx", "bus_tt", "bus_tn"}

// mismatched cannot be filled from a BizEvent's payload.
type mismatched struct {
	Key []int
}

var busRefused any // panic of a registration that must be accepted

func init() {
	defer func() { busRefused = recover() }()
	exec.RegisterEntity2Model(&Doc{}, func(entity, parent ddd.IEntity, op ddd.OpType) (exec.IModel, error) {
		d := entity.(*Doc)
		return &DocPO{ID: d.GetID(), V: d.V}, nil
	}, func(po exec.IModel, do ddd.IEntity) error {
		p, d := po.(*DocPO), do.(*Doc)
		d.SetID(p.ID)
		d.V = p.V
		return nil
	})
	for _, t := range busTypes {
		t := t
		ddd.RegisterEventHandler(ddd.EventType(t), func(ctx context.Context, evt *ddd.DomainEvent) error {
			w, _, _ := self()
			return w.extra.(*busRun).handle(evt)
		})
	}
	// what encoding/json learns about a type it keeps for the whole process, and
	// the runs of a process must not differ by their place in it
	for _, v := range []any{&BizEvent{}, &mismatched{}} {
		bs, _ := json.Marshal(v)
		_ = json.Unmarshal(bs, v)
		_ = json.Unmarshal([]byte(`{"Key":"x"}`), v)
	}
	// bus_tx has a checker, bus_tt one for the business event, bus_tn one that
	// does not understand the event, bus_a and bus_b have none
	ddd.RegisterEventTXChecker("bus_tx", func(evt *ddd.DomainEvent) ddd.TXStatus {
		w, _, _ := self()
		return w.extra.(*busRun).checkTx(evt)
	})
	ddd.RegisterEventTXChecker("bus_tt", func(evt *BizEvent) ddd.TXStatus {
		w, _, _ := self()
		b := w.extra.(*busRun)
		bs, _ := json.Marshal(evt)
		de := &ddd.DomainEvent{Payload: bs}
		if e := b.events[evt.Key]; e != nil {
			de.ID, de.SendType = e.id, e.st
			w.Probe("tx-check-typed")
		}
		return b.checkTx(de)
	})
	ddd.RegisterEventTXChecker("bus_tn", func(evt *mismatched) ddd.TXStatus {
		w, _, _ := self()
		w.Fail("C05:content", "a checker is asked about an event it cannot be given: %+v", evt)
		return ddd.TXCommit
	})
}

type busEvent struct {
	key     string
	typ     string
	data    int
	body    string // payload as raised
	st      ddd.SendType
	sender  string
	cmd     *busCmd
	id      string // domain event id
	created time.Time
	raised  int // log position when raised
	raisedT time.Duration
	fails   map[string]int // failures before success, per service
	panics  bool
	msg     int // 1 a very long error message, 2 one that is not UTF-8
	msgOff  int
	dur     map[string]time.Duration
	rowAt   int   // log position of the commit that stored it; 0: not stored
	rowID   int64 // database id
	deliver map[string]*delivery
}

type delivery struct {
	invs    []*inv
	status  int64 // last committed service-event status
	retry   int64
	seRow   bool
	doneAt  int // log position of the committed success/failure
	expired bool
	gone    bool // row cleaned away
}

type inv struct {
	node       *Node
	inc        int
	start, end int
	tStart     time.Duration
	tEnd       time.Duration
	ended      bool
	failed     bool
	acked      bool // its outcome was committed
}

type busCmd struct {
	n        int
	id       string // business row
	sender   string
	node     int
	direct   bool // Dispatch without the engine
	sleep    time.Duration
	pause    time.Duration
	fail     int // 1 error after raising, 2 break, 3 panic
	events   []*busEvent
	started  int
	finished int
	res      int // 0 unknown, 1 success, 2 failure
	live     bool
	liveNode *Node
	liveInc  int
	rowAt    int
	tries    int
	hold     time.Duration // the checker has no answer for that long
	holdEnd  time.Duration
	cut      int  // the node crashes 1 after the commit, 2 after the message transaction began
	noChk    bool // its transactional events have no checker
	calm     bool // it ran without faults and in time
}

type busSender struct {
	name string
	cmds []*busCmd
	next int
	node int
	busy bool
}

type busService struct {
	name    string
	rowAt   int // log position of its registration commit
	retry   string
	limit   int
	custom  []time.Duration
	intv    time.Duration
	runIntv time.Duration
	conc    int
	perRun  int
}

type busRun struct {
	w        *World
	svcs     []*busService
	nodes    []*busNode
	senders  []*busSender
	mixed    map[string]bool      // senders of ordered and unordered events
	events   map[string]*busEvent // by key
	byRow    map[int64]*busEvent
	all      []*busEvent
	cmds     []*busCmd
	pos      int
	txDue    time.Duration
	reten    time.Duration
	clean    string
	cleanOn  bool
	maxDelay time.Duration
	doneT    time.Duration
	tail     time.Duration
	quiet    time.Duration
	skewed   bool
	expireOp bool
	lastProg time.Duration
	stuck    bool
	idWrap   bool
	pendAt   int
	pendS    string
	slow     time.Duration // retries and polls are that much slower than usual
	small    bool          // some service scans few events at a time
	out      bool          // there was an outage of hours
	pool     bool          // connection pools just big enough
	held     bool          // the checker has no answer for some commands
}

// progress notes that the system moved; standing still for patience() after the
// faults stopped is being stuck.
func (b *busRun) progress() { b.lastProg = b.w.now() }

func (b *busRun) patience() time.Duration {
	q := 45*time.Second + b.txDue + b.slow
	for _, k := range b.w.fault.kinds {
		if k == "stall" {
			q += 150 * time.Second
			break
		}
	}
	return q
}

type busNode struct {
	n     *Node
	svc   *busService
	late  time.Duration
	bus   *eb.EventBus
	eng   *ddd.Engine
	ready bool
}

func busScenario() *Scenario {
	return &Scenario{Name: "bus", Setup: busSetup, Final: busFinal, Limit: 30 * time.Minute, Steps: 100000,
		Real:   []string{"eventbus/mysql (all of it: dispatch, transactions, consume loop, retry strategies, cleanup)", "dddfirework engine and executor/mysql for the commands that emit the events", "robfig/cron schedule of the cleanup"},
		Stub:   []string{"event handlers and transaction checkers (simulated work, delays, errors, panics)"},
		Assume: []string{"handlers return", "clocks of the nodes differ by at most 2 s", "all instances of one service use the same options"}}
}

func busSetup(w *World) {
	b := &busRun{w: w, events: map[string]*busEvent{}, mixed: map[string]bool{}, byRow: map[int64]*busEvent{}}
	w.extra = b
	for _, m := range []any{&eb.EventPO{}, &eb.Transaction{}, &eb.ServicePO{}, &eb.ServiceEventPO{}, &DocPO{}} {
		createTable(w.db, m)
	}
	w.db.OnCommit = b.onCommit
	if busRefused != nil {
		w.Fail(curProp+":registration-refused", "registering the handlers and checkers panics: %v", busRefused)
		return
	}
	W, F := w.W, w.F
	if W.P(250) { // event ids come from a counter that wraps at 24 bits
		b.idWrap = true
		xidCounter = 1<<24 - 1 - uint32(W.N(30))
	}

	b.txDue = []time.Duration{time.Minute, 3 * time.Second, 10 * time.Second}[W.N(3)]
	b.reten = 48 * time.Hour
	b.clean = "0 0 3 * * *"
	if curProp == "C10" || W.P(300) {
		b.cleanOn = true
		if !W.P(60) {
			b.reten = time.Duration(W.R(0, 6)) * time.Second
		}
		b.clean = []string{"*/5 * * * * *", "*/2 * * * * *", "*/7 * * * * *"}[W.N(3)]
	}
	nsvc := W.R(1, 2)
	unit := time.Duration(1)
	b.held = curProp == "C05" && !b.cleanOn && W.P(80)
	if b.held || !b.cleanOn && W.P(60) { // minutes instead of seconds
		unit = 60
		w.Probe("slow-policies")
	}
	for i := 0; i < nsvc; i++ {
		s := &busService{name: fmt.Sprintf("svc%c", 'A'+i)}
		switch W.N(4) {
		case 0:
			s.retry, s.intv, s.limit = "interval", unit*time.Duration(W.R(1, 30))*100*time.Millisecond, W.R(-1, 3)
		case 1:
			s.retry = "custom"
			for j := W.R(1, 3); j > 0; j-- {
				s.custom = append(s.custom, unit*time.Duration(W.R(1, 40))*100*time.Millisecond)
			}
		case 2:
			s.retry, s.limit = "limit", W.R(-1, 3)
		case 3:
			s.retry, s.intv, s.limit = "default", 3*time.Second, 5
		}
		s.runIntv = []time.Duration{100 * time.Millisecond, 500 * time.Millisecond, time.Second}[W.N(3)]
		if unit > 1 {
			s.runIntv = []time.Duration{20 * time.Second, time.Minute}[W.N(2)]
			b.slow = max(b.slow, 5*time.Minute+40*s.runIntv) // full batches of blocked events take turns
			w.moreTime = 20 * time.Hour
		}
		s.conc = W.R(1, 3)
		s.perRun = 100
		if W.P(200) {
			s.perRun = W.R(2, 7)
			b.small = true
		}
		b.svcs = append(b.svcs, s)
	}
	nnode := W.R(nsvc, nsvc*2)
	if curProp == "C07" || curProp == "C08" {
		nnode = W.R(nsvc, nsvc*2+1)
	}
	for i := 0; i < nnode; i++ {
		bn := &busNode{svc: b.svcs[i%nsvc]}
		if i >= nsvc && W.P(250) {
			bn.late = time.Duration(W.R(1, 20)) * time.Second
		} else if i > 0 && i < nsvc && W.P(150) {
			bn.late = time.Duration(W.R(1, 15)) * time.Second
		}
		bn.n = w.addNode(fmt.Sprintf("n%d/%s", i+1, bn.svc.name), func(n *Node) { b.boot(bn, n) })
		b.nodes = append(b.nodes, bn)
	}

	// workload
	mode := W.N(4)
	ns := W.R(1, 3)
	evN := 0
	for si := 0; si < ns; si++ {
		s := &busSender{name: fmt.Sprintf("s%d", si), node: W.N(nnode)}
		kind := ddd.SendTypeNormal
		switch curProp {
		case "C08":
			kind = []ddd.SendType{ddd.SendTypeFIFO, ddd.SendTypeLaxFIFO}[W.N(2)]
		case "C05":
			kind = []ddd.SendType{ddd.SendTypeTransaction, ddd.SendTypeTransaction, ddd.SendTypeNormal}[W.N(3)]
		default:
			kind = []ddd.SendType{ddd.SendTypeNormal, ddd.SendTypeFIFO, ddd.SendTypeLaxFIFO, ddd.SendTypeTransaction}[W.N(4)]
		}
		nc := W.R(1, 4)
		if mode == 3 {
			nc = W.R(2, 7)
		}
		// one entity raising ordered and unordered events
		mix := curProp == "C08" && W.P(300)
		if mix {
			b.mixed[s.name] = true
			nc = W.R(3, 7)
		}
		for ci := 0; ci < nc; ci++ {
			c := &busCmd{n: len(b.cmds) + 1, sender: s.name}
			c.id = fmt.Sprintf("d%d", c.n)
			if mix {
				kind = []ddd.SendType{ddd.SendTypeFIFO, ddd.SendTypeFIFO, ddd.SendTypeLaxFIFO, ddd.SendTypeNormal}[W.N(4)]
			}
			c.pause = unit * time.Duration(W.N(8)) * 250 * time.Millisecond
			if W.P(200) {
				c.pause = 0
			}
			if W.P(300) {
				c.sleep = time.Duration(W.N(30)) * 100 * time.Millisecond
			}
			if curProp == "C05" && W.P(150) {
				c.sleep = b.txDue + time.Duration(W.N(40))*500*time.Millisecond
			}
			if b.held && kind == ddd.SendTypeTransaction && W.P(300) {
				c.hold = []time.Duration{20 * time.Minute, 2 * time.Hour, 15 * time.Hour}[W.N(3)]
				c.cut = W.N(3)
			}
			if kind != ddd.SendTypeTransaction && W.P(300) {
				c.direct = true
			}
			if curProp == "C05" && kind == ddd.SendTypeTransaction && W.P(200) {
				c.noChk = true
				w.Probe("tx-no-checker")
			}
			if !c.direct && W.P(200) {
				c.fail = W.R(1, 3)
			}
			ne := W.R(1, 3)
			if W.P(3) && !b.small && (kind == ddd.SendTypeNormal || kind == ddd.SendTypeTransaction) {
				ne = []int{25, 101, 105}[W.N(3)]
				w.Probe("big-batch")
			}
			for k := 0; k < ne; k++ {
				evN++
				if mix && k > 0 && W.P(500) {
					kind = []ddd.SendType{ddd.SendTypeFIFO, ddd.SendTypeLaxFIFO, ddd.SendTypeNormal}[W.N(3)]
				}
				e := &busEvent{key: fmt.Sprintf("e%d", evN), st: kind, sender: s.name, cmd: c, fails: map[string]int{}, dur: map[string]time.Duration{}, deliver: map[string]*delivery{}}
				e.typ = busTypes[W.N(2)]
				if kind == ddd.SendTypeTransaction && (!c.noChk || W.P(300)) {
					e.typ = "bus_tx"
					if c.noChk {
						e.typ = "bus_tn"
					} else if curProp == "C05" && W.P(300) {
						e.typ = "bus_tt"
					}
				}
				if kind == ddd.SendTypeTransaction && !c.direct && W.P(250) {
					e.st = ddd.SendTypeNormal
					e.typ = busTypes[W.N(2)]
				}
				e.panics = W.P(200)
				e.data = W.N(len(busData))
				if W.P(100) {
					e.msg, e.msgOff = W.R(1, 2), W.N(4)
				}
				for _, sv := range b.svcs {
					f := 0
					p := 250
					if curProp == "C09" {
						p = 700
					}
					if k > 5 {
						p = 10
					}
					if W.P(p) {
						f = W.R(1, 3)
						if W.P(300) {
							f = 1000
						}
					}
					e.fails[sv.name] = f
					d := time.Duration(0)
					if W.P(min(300, p*2)) {
						d = time.Duration(W.N(25)) * 100 * time.Millisecond
					}
					e.dur[sv.name] = d
					e.deliver[sv.name] = &delivery{status: -1}
				}
				c.events = append(c.events, e)
				b.events[e.key] = e
				b.all = append(b.all, e)
			}
			s.cmds = append(s.cmds, c)
			b.cmds = append(b.cmds, c)
		}
		b.senders = append(b.senders, s)
	}
	b.expireOp = W.P(400)
	b.pool = !b.cleanOn && W.P(150)
	b.tail = time.Duration(W.R(1, 10)) * time.Second

	// faults
	fm := F.N(10)
	if fm >= 4 {
		w.faultsOn = true
		w.fault.on = true
		w.fault.rate = []int{3, 8, 20}[F.N(3)]
		w.fault.crashMax = 3
		for _, k := range lossyKinds {
			if F.N(2) == 1 {
				w.fault.kinds = append(w.fault.kinds, k)
			}
		}
		w.faultEnd = w.start + int64(time.Duration(F.R(5, 40))*time.Second)
		w.drawFocus(30)
		if F.N(4) == 3 {
			// explicit crashes at drawn instants
			for i := F.R(1, 2); i > 0; i-- {
				bn := b.nodes[F.N(len(b.nodes))]
				at := time.Duration(F.N(20000)) * time.Millisecond
				w.At(at, func() {
					if bn.n.alive {
						bn.n.Crash(w.restartDelay())
					}
				})
			}
		}
		if F.N(10) == 9 && b.slow == 0 {
			b.outage()
		}
	}
	for _, k := range w.fault.kinds {
		if k == "clock-jump" {
			b.skewed = true
		}
	}
	for _, bn := range b.nodes {
		w.At(bn.late, func() { bn.n.Start() })
	}
	w.done = b.done
}

// outage takes all nodes down for hours, but less than the day within which the
// bus looks for events.
func (b *busRun) outage() {
	w := b.w
	F := w.F
	at := time.Duration(F.R(1, 250)) * 100 * time.Millisecond
	long := []time.Duration{10 * time.Minute, 100 * time.Minute, 9 * time.Hour, 22 * time.Hour}[F.N(4)]
	if b.cleanOn {
		long = min(long, 100*time.Minute)
	}
	var delay []time.Duration
	for range b.nodes {
		delay = append(delay, time.Duration(F.N(20))*500*time.Millisecond)
	}
	w.faultEnd = w.start + int64(at+long) + int64(time.Duration(F.R(1, 20))*time.Second)
	w.moreTime += at + long
	w.At(at, func() {
		w.inject("outage")
		b.out = true
		for i, bn := range b.nodes {
			bn.n.hold = runtime.SimNow() + int64(long+delay[i])
			bn.n.Crash(long + delay[i])
		}
	})
}

func (b *busRun) tick() int { b.pos++; return b.pos }

func (b *busRun) boot(bn *busNode, n *Node) {
	bn.ready = false
	db := openGorm(b.w)
	if b.pool {
		// a command needs two connections at once, everything else one: this is
		// enough as long as none is leaked
		k := 2
		for _, s := range b.senders {
			if s.node == n.idx-1 {
				k++
			}
		}
		sqlDB, err := db.DB()
		if err != nil {
			panic(err)
		}
		sqlDB.SetMaxOpenConns(k)
		b.w.Probe("bounded-pool")
	}
	sv := bn.svc
	bus := eb.NewEventBus(sv.name, db, func(o *eb.Options) {
		o.Logger = logr.Discard()
		// what is left out takes the documented default
		if sv.runIntv != 100*time.Millisecond {
			o.RunInterval = sv.runIntv
		}
		o.CleanCron = b.clean
		if b.reten != 48*time.Hour {
			o.RetentionTime = b.reten
		}
		if sv.perRun != 100 {
			o.LimitPerRun = sv.perRun
		}
		if sv.conc != 1 {
			o.ConsumeConcurrent = sv.conc
		}
		if b.txDue != time.Minute {
			o.TXCheckTimeout = b.txDue
		}
		switch sv.retry {
		case "interval":
			o.RetryInterval, o.RetryLimit = sv.intv, sv.limit
		case "custom":
			o.CustomRetry = sv.custom
		case "limit":
			o.RetryStrategy = &eb.LimitRetry{Limit: sv.limit}
		}
	})
	self()
	opts := append(bus.Options(), ddd.WithLogger(logr.Discard()))
	eng := ddd.NewEngine(nil, exec.NewExecutor(db), opts...)
	bus.Start(context.Background())
	bn.bus, bn.eng, bn.ready = bus, eng, true
	b.progress()
	b.w.Log("%s ready", n.name)
	for _, s := range b.senders {
		if s.node == n.idx-1 {
			s := s
			n.Go(0, func() { b.client(bn, s) })
		}
	}
}

func (b *busRun) client(bn *busNode, s *busSender) {
	for s.next < len(s.cmds) {
		c := s.cmds[s.next]
		b.w.Sleep(c.pause)
		s.next++
		_, n, _ := self()
		id := b.w.newCmd()
		withCmd(id, func() { b.runCmd(bn, n, c) })
	}
}

var errBiz = errors.New("business error")

func (e *busEvent) biz() *BizEvent {
	return &BizEvent{T: e.typ, Key: e.key, Sender: e.sender, Data: busData[e.data], N: 1<<62 + int64(e.data)}
}

func (b *busRun) raise(c *busCmd) []*ddd.DomainEvent {
	var out []*ddd.DomainEvent
	for _, e := range c.events {
		de := ddd.NewDomainEvent(e.biz(), ddd.WithSendType(e.st))
		e.id, e.created, e.raised, e.raisedT, e.body = de.ID, de.CreatedAt, b.tick(), b.w.now(), string(de.Payload)
		out = append(out, de)
	}
	return out
}

func (b *busRun) runCmd(bn *busNode, n *Node, c *busCmd) {
	w := b.w
	b.progress()
	c.live, c.liveNode, c.liveInc = true, n, n.inc
	c.started = b.tick()
	began, hit0 := w.now(), n.hit
	w.Log("%s command %d (%s) starts", n.name, c.n, c.sender)
	var err error
	brk := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(string); !ok || r.(string) != "business panic" {
					panic(r)
				}
				err = errBiz
			}
		}()
		ctx := context.Background()
		if c.direct {
			err = bn.bus.Dispatch(ctx, b.raise(c)...)
			return
		}
		res := bn.eng.Run(ctx, func(ctx context.Context, repo *ddd.Repository) error {
			d := &Doc{V: int64(c.n)}
			d.SetID(c.id)
			repo.Add(d)
			w.Seam("cmd")
			for _, e := range c.events {
				d.AddEvent(e.biz(), ddd.WithSendType(e.st))
				evs := d.GetEvents()
				de := evs[len(evs)-1]
				e.id, e.created, e.raised, e.raisedT, e.body = de.ID, de.CreatedAt, b.tick(), w.now(), string(de.Payload)
			}
			w.Sleep(c.sleep)
			switch c.fail {
			case 1:
				return errBiz
			case 2:
				return ddd.ErrBreak
			case 3:
				panic("business panic")
			}
			return nil
		})
		if res == nil {
			w.Fail("C01:no-result", "command %d ended without a result", c.n)
			return
		}
		err = res.Error
		brk = res.Break
	}()
	self()
	b.progress()
	c.live = false
	c.finished = b.tick()
	if err == nil && !brk {
		c.res = 1
	} else {
		c.res = 2
	}
	c.calm = n.hit == hit0 && !w.clockSkewd && w.now()-began < b.txDue-time.Second
	w.Log("%s command %d ends res=%d err=%v", n.name, c.n, c.res, err)
	if c.res == 1 && !c.direct && c.rowAt == 0 {
		w.Fail("C01:acked-not-committed", "command %d reported success but its row is not committed", c.n)
	}
}

func (c *busCmd) running() bool {
	return c.live && c.liveNode.alive && c.liveNode.inc == c.liveInc
}

// openOnServer reports whether the command's server transaction may still commit.
func (b *busRun) checkTx(evt *ddd.DomainEvent) ddd.TXStatus {
	w := b.w
	e := b.find(evt)
	if e == nil {
		return ddd.TXRollBack
	}
	if evt.ID != e.id || string(evt.Payload) != e.body || evt.SendType != e.st {
		w.Fail("C05:content", "the checker is asked about event %s with altered content: %+v", e.key, evt)
	}
	w.Seam("checker")
	c := e.cmd
	w.Probe("tx-check")
	if _, n, _ := self(); c.liveNode != nil && b.nodes[n.idx-1].svc != b.nodes[c.liveNode.idx-1].svc {
		// the checkers of another service know nothing about this command
		w.Probe("tx-check-other-service")
		return ddd.TXRollBack
	}
	if t := w.now(); t < e.raisedT+b.txDue-time.Second && !w.clockSkewd {
		w.Fail("C05:asked-early", "the checker is asked about event %s %v after it was raised, the timeout is %v", e.key, t-e.raisedT, b.txDue)
	}
	if c.hold > 0 && c.holdEnd == 0 {
		c.holdEnd = w.now() + c.hold
		w.Log("no answer about command %d for %v", c.n, c.hold)
	}
	switch {
	case w.now() < c.holdEnd:
		w.Probe("tx-check-no-answer")
		return ddd.TXUnknown
	case c.running():
		w.Probe("tx-check-unknown")
		return ddd.TXUnknown
	case c.rowAt != 0:
		w.Probe("tx-check-commit")
		return ddd.TXCommit
	}
	w.Probe("tx-check-rollback")
	return ddd.TXRollBack
}

func (b *busRun) find(evt *ddd.DomainEvent) *busEvent {
	var p BizEvent
	if err := json.Unmarshal(evt.Payload, &p); err != nil {
		b.w.Fail(curProp+":payload", "event %s delivered with a broken payload %q", evt.ID, evt.Payload)
		return nil
	}
	e := b.events[p.Key]
	if e == nil {
		b.w.Fail(curProp+":unknown-event", "event with unknown key %q delivered", p.Key)
		return nil
	}
	return e
}

func (b *busRun) handle(evt *ddd.DomainEvent) error {
	w, n, _ := self()
	e := b.find(evt)
	if e == nil {
		return nil
	}
	if evt.ID != e.id || string(evt.Type) != e.typ || evt.Sender != e.sender || evt.SendType != e.st || string(evt.Payload) != e.body || !evt.CreatedAt.Equal(e.created) {
		w.Fail("C06:content", "event %s delivered with altered content: %+v", e.key, evt)
	}
	sv := b.nodes[n.idx-1].svc
	d := e.deliver[sv.name]
	b.progress()
	v := &inv{node: n, inc: n.inc, start: b.tick(), tStart: w.now()}
	attempt := 0
	for _, o := range d.invs {
		if o.acked {
			attempt++
		}
	}
	b.preCheck(e, sv, d, v)
	d.invs = append(d.invs, v)
	w.Log("%s handles %s attempt %d", n.name, e.key, attempt+1)
	w.Probe("handled")
	w.Seam("handler")
	w.Sleep(e.dur[sv.name])
	v.end, v.tEnd, v.ended = b.tick(), w.now(), true
	if attempt < e.fails[sv.name] {
		v.failed = true
		w.Log("%s handler of %s fails", n.name, e.key)
		if e.panics {
			panic("business panic in handler of " + e.key)
		}
		switch e.msg {
		case 1: // more than the column holds, cut in the middle of a character
			return errors.New(strings.Repeat("x", e.msgOff) + strings.Repeat("语", 22000))
		case 2: // quotes binary data
			return errors.New("cannot decode \xff\xfe\x00")
		}
		return errBiz
	}
	return nil
}

// preCheck runs at the start of every handler invocation.
func (b *busRun) preCheck(e *busEvent, sv *busService, d *delivery, v *inv) {
	w := b.w
	tx := e.st == ddd.SendTypeTransaction
	if tx && e.cmd.rowAt == 0 {
		w.Fail("C05:delivered-uncommitted", "transactional event %s delivered to %s although command %d is not committed", e.key, sv.name, e.cmd.n)
	}
	if d.status == 10 {
		w.Fail("C07:redelivered-after-success", "event %s delivered again to %s after its success was recorded", e.key, sv.name)
	}
	for _, o := range d.invs {
		if !o.ended && o.node.alive && o.node.inc == o.inc {
			w.Fail("C07:overlap", "event %s handled by two goroutines of %s at once", e.key, sv.name)
		}
		if o.ended && !o.acked && !o.failed && o.node.alive && o.node.inc == o.inc && o.node.hit == 0 && !w.faultsOn {
			w.Fail("C07:redelivered-after-success", "event %s delivered again to %s after its handler succeeded", e.key, sv.name)
		}
	}
	if d.status == 21 {
		w.Fail("C09:after-failed", "event %s delivered again to %s after it was recorded as failed", e.key, sv.name)
	}
	b.checkRetry(e, sv, d, v)
	b.checkOrder(e, sv)
}

func (sv *busService) maxAttempts() int {
	if sv.retry == "custom" {
		return len(sv.custom) + 1
	}
	return sv.limit + 2
}

func (b *busRun) checkRetry(e *busEvent, sv *busService, d *delivery, v *inv) {
	w := b.w
	n := 0
	var last *inv
	for _, o := range d.invs {
		if o.acked {
			n++
			last = o
		} else if !o.failed {
			last = nil
		}
	}
	if n >= sv.maxAttempts() {
		w.Fail("C09:too-many-attempts", "event %s: attempt %d on %s, policy %s allows %d", e.key, n+1, sv.name, sv.retry, sv.maxAttempts())
	}
	if last == nil || n == 0 || w.clockSkewd {
		return
	}
	gap := time.Duration(0)
	switch sv.retry {
	case "custom":
		if n-1 < len(sv.custom) {
			gap = sv.custom[n-1]
		}
	case "interval", "default":
		gap = sv.intv
	}
	if v.tStart < last.tEnd+gap-2*time.Millisecond {
		w.Fail("C09:too-early", "event %s: attempt %d on %s starts %v after the failure, the interval is %v", e.key, n+1, sv.name, v.tStart-last.tEnd, gap)
	}
}

func (b *busRun) ordered(e *busEvent) bool {
	return e.st == ddd.SendTypeFIFO || e.st == ddd.SendTypeLaxFIFO
}

// before: p precedes e in its sender's order and the bus can know it.
func (b *busRun) precedes(p, e *busEvent) bool {
	if p == e || p.sender != e.sender || p.rowAt == 0 || e.rowAt == 0 || !b.ordered(p) || !b.ordered(e) {
		return false
	}
	if p.cmd == e.cmd {
		if p.rowAt != e.rowAt { // a retried direct dispatch stores it again
			return false
		}
		if b.idWrap {
			// the engine orders events of one nanosecond by id; simulated time does
			// not move inside a command, so here the order of dispatch counts
			return p.rowID < e.rowID
		}
		return p.raised < e.raised
	}
	// p was stored before e was raised, and clocks agree with that
	if p.rowAt >= e.raised {
		return false
	}
	return !b.w.clockSkewd
}

func (b *busRun) checkOrder(e *busEvent, sv *busService) {
	if !b.ordered(e) || curProp != "C08" {
		return
	}
	for _, p := range b.all {
		if !b.precedes(p, e) {
			continue
		}
		d := p.deliver[sv.name]
		if !d.seRow || d.gone {
			continue
		}
		ok := d.status == 10 || d.status == 31
		if e.st == ddd.SendTypeLaxFIFO {
			ok = ok || d.status == 21
		}
		b.w.Probe("order-checked")
		if !ok {
			b.w.Fail("C08:overtaken", "%s event %s of %s starts on %s while the earlier %s has status %d", e.st, e.key, e.sender, sv.name, p.key, d.status)
		}
	}
}

func (b *busRun) onCommit(tx *simdb.Tx, chs []simdb.Change) {
	w := b.w
	p := b.tick()
	for _, c := range chs {
		if c.Before == nil || c.After == nil || c.Table != "ddd_domain_service_event" {
			b.progress()
		}
		switch c.Table {
		case "doc":
			if c.After != nil {
				for _, cm := range b.cmds {
					if cm.id == c.After["id"] {
						cm.rowAt = p
						w.Log("commit of command %d", cm.n)
						b.cut(cm, 1)
						if cm.fail != 0 {
							w.Fail("C01:failed-committed", "command %d failed but its row is committed", cm.n)
						}
					}
				}
			}
		case "ddd_eventbus_service":
			if c.After != nil {
				for _, s := range b.svcs {
					if s.name == c.After["name"] {
						s.rowAt = p
					}
				}
			}
		case "ddd_event_transaction":
			if c.After != nil && b.held {
				if e := b.txEvent(c.After); e != nil {
					b.cut(e.cmd, 2)
				}
			}
		case "ddd_domain_event":
			if c.After != nil {
				var de ddd.DomainEvent
				if err := json.Unmarshal([]byte(c.After["event"].(string)), &de); err != nil {
					continue
				}
				var pl BizEvent
				_ = json.Unmarshal(de.Payload, &pl)
				if e := b.events[pl.Key]; e != nil {
					if e.rowAt == 0 {
						e.rowAt = p
						e.rowID = c.After["id"].(int64)
					}
					b.byRow[c.After["id"].(int64)] = e
				}
			} else if e := b.byRow[c.Before["id"].(int64)]; e != nil {
				b.eventRemoved(e)
			}
		case "ddd_domain_service_event":
			b.seChange(c, p)
		}
	}
	w.Log("committed %d change(s)", len(chs))
}

// txEvent is the first event of a stored message transaction.
func (b *busRun) txEvent(row map[string]any) *busEvent {
	var des []*ddd.DomainEvent
	if json.Unmarshal([]byte(row["events"].(string)), &des) != nil || len(des) == 0 {
		return nil
	}
	var pl BizEvent
	_ = json.Unmarshal(des[0].Payload, &pl)
	return b.events[pl.Key]
}

// cut crashes the node of a command at the given point, once.
func (b *busRun) cut(c *busCmd, at int) {
	if c.cut != at {
		return
	}
	c.cut = 0
	if n, inc := c.liveNode, c.liveInc; n != nil {
		b.w.At(0, func() {
			if n.alive && n.inc == inc {
				n.Crash(b.w.restartDelay())
			}
		})
	}
}

// holding is how long the checker stays without an answer about commands whose
// message transactions are all that is left to do.
func (b *busRun) holding() (end time.Duration) {
	for _, r := range b.w.db.Rows("ddd_event_transaction") {
		e := b.txEvent(r)
		if e == nil || e.cmd.holdEnd <= b.w.now() {
			return 0
		}
		end = max(end, e.cmd.holdEnd)
	}
	if end == 0 {
		return 0
	}
	for _, e := range b.all {
		if e.cmd.holdEnd > b.w.now() {
			continue
		}
		for _, sv := range b.svcs {
			if b.mustDeliver(e, sv) && !b.settled(e, sv) {
				return 0
			}
		}
	}
	return end
}

func (b *busRun) seChange(c simdb.Change, p int) {
	row := c.After
	if row == nil {
		row = c.Before
	}
	e := b.byRow[row["event_id"].(int64)]
	if e == nil {
		b.w.Probe("se-without-event")
		return
	}
	d := e.deliver[row["service"].(string)]
	if d == nil {
		return
	}
	if c.After == nil {
		d.gone = true
		if d.status != 10 {
			b.w.Fail("C10:cleaned-unfinished", "cleanup removed the delivery record of %s for %v whose status is %d", e.key, row["service"], d.status)
		}
		b.w.Probe("cleaned-delivery")
		if age := b.w.now() - b.createdAt(e); age < b.reten-2*time.Second && !b.w.clockSkewd {
			b.w.Fail("C10:cleaned-early", "event %s cleaned %v after its creation, retention is %v", e.key, age, b.reten)
		}
		return
	}
	d.seRow = true
	st := c.After["status"].(int64)
	rc := c.After["retry_count"].(int64)
	if c.Before == nil {
		if d.status == -1 {
			d.status = st
		}
		d.retry = rc
		return
	}
	if st != d.status || rc != d.retry {
		b.progress()
		if len(d.invs) > 0 {
			d.invs[len(d.invs)-1].acked = true
		}
		d.doneAt = p
		if st == 10 {
			b.w.Probe("success")
			if len(d.invs) == 0 {
				b.w.Fail("C06:marked-unhandled", "event %s recorded as handled by %v without a handler call", e.key, row["service"])
			} else if v := d.invs[len(d.invs)-1]; v.failed || !v.ended {
				b.w.Fail("C06:marked-unhandled", "event %s recorded as handled by %v although its handler failed", e.key, row["service"])
			}
		}
		if st == 21 {
			b.w.Probe("failed-for-good")
			n := 0
			for _, o := range d.invs {
				if o.acked {
					n++
				}
			}
			sv := b.svc(row["service"].(string))
			if n < sv.maxAttempts() {
				b.w.Fail("C09:gave-up-early", "event %s recorded as failed on %s after %d attempts, the policy allows %d", e.key, sv.name, n, sv.maxAttempts())
			}
		}
	}
	d.status, d.retry = st, rc
}

func (b *busRun) createdAt(e *busEvent) time.Duration {
	return time.Duration(e.created.UnixNano() - time.Unix(0, b.w.start).UnixNano())
}

func (b *busRun) svc(name string) *busService {
	for _, s := range b.svcs {
		if s.name == name {
			return s
		}
	}
	return nil
}

func (b *busRun) eventRemoved(e *busEvent) {
	for _, sv := range b.svcs {
		d := e.deliver[sv.name]
		if d.seRow && d.status != 10 {
			b.w.Fail("C10:event-removed", "event %s was removed while its delivery to %s has status %d", e.key, sv.name, d.status)
		}
	}
	b.w.Probe("cleaned-event")
}

// blocked: a failed predecessor legitimately blocks this FIFO event, and a
// FIFO event so blocked the later ordered events of its sender.
func (b *busRun) blocked(e *busEvent, sv string) bool {
	if !b.ordered(e) {
		return false
	}
	failed, waiting := false, e.st == ddd.SendTypeFIFO
	for _, p := range b.all {
		if p != e && p.sender == e.sender && p.rowAt != 0 {
			failed = failed || p.deliver[sv].status == 21
			waiting = waiting || p.st == ddd.SendTypeFIFO && p.deliver[sv].status == 0
		}
	}
	return failed && waiting
}

// mustDeliver: e was accepted for delivery to sv.
func (b *busRun) mustDeliver(e *busEvent, sv *busService) bool {
	c := e.cmd
	if sv.rowAt == 0 || e.id == "" || sv.rowAt >= c.started {
		return false
	}
	if e.st == ddd.SendTypeTransaction {
		if c.noChk {
			// with nobody to ask, an unfinished message transaction is rolled back
			return e.rowAt != 0 || c.res == 1 && c.calm
		}
		return c.rowAt != 0
	}
	return c.res == 1
}

func (b *busRun) settled(e *busEvent, sv *busService) bool {
	d := e.deliver[sv.name]
	if d.status == 10 || d.status == 21 || d.status == 31 {
		return true
	}
	if d.status == 0 && b.blocked(e, sv.name) {
		return true
	}
	return false
}

func (b *busRun) idle() bool {
	for _, s := range b.senders {
		if s.next < len(s.cmds) {
			return false
		}
	}
	for _, c := range b.cmds {
		if c.running() {
			return false
		}
	}
	for _, bn := range b.nodes {
		if !bn.n.alive || !bn.ready || bn.svc.rowAt == 0 {
			return false
		}
	}
	return true
}

func (b *busRun) pending() string {
	// everything it looks at changes together with the log position
	if b.pendAt != b.pos+1 {
		b.pendS, b.pendAt = b.pendingNow(), b.pos+1
	}
	return b.pendS
}

func (b *busRun) pendingNow() string {
	for _, e := range b.all {
		for _, sv := range b.svcs {
			if b.mustDeliver(e, sv) && !b.settled(e, sv) {
				return fmt.Sprintf("event %s (%s, sender %s, command %d) is not delivered to %s: status %d after %d attempts", e.key, e.st, e.sender, e.cmd.n, sv.name, e.deliver[sv.name].status, len(e.deliver[sv.name].invs))
			}
			// a delivery once started is finished
			d := e.deliver[sv.name]
			if d.seRow && !b.settled(e, sv) {
				return fmt.Sprintf("event %s stored for %s is not finished: status %d after %d attempts", e.key, sv.name, d.status, len(d.invs))
			}
		}
	}
	return ""
}

func (b *busRun) txPending() string {
	if rows := b.w.db.Rows("ddd_event_transaction"); len(rows) > 0 {
		return fmt.Sprintf("%d message transaction(s) are never resolved", len(rows))
	}
	return ""
}

func (b *busRun) cleanPending() string {
	if !b.cleanOn {
		return ""
	}
	now := b.w.now()
	for _, e := range b.all {
		if e.rowAt == 0 {
			continue
		}
		all, some := true, false
		for _, sv := range b.svcs {
			d := e.deliver[sv.name]
			some = some || d.seRow
			if d.seRow && d.status != 10 {
				all = false
			}
		}
		if !all || !some || now-b.createdAt(e) < b.reten+20*time.Second {
			continue
		}
		for id, x := range b.byRow {
			if x != e {
				continue
			}
			for _, r := range b.w.db.Rows("ddd_domain_event") {
				if r["id"].(int64) == id {
					return fmt.Sprintf("event %s is finished everywhere and older than the retention but never cleaned", e.key)
				}
			}
		}
	}
	return ""
}

func (b *busRun) done() bool {
	w := b.w
	since := b.lastProg
	if w.faultsOn {
		since = max(since, time.Duration(w.faultEnd-w.start))
	}
	if b.held {
		for _, c := range b.cmds {
			if c.holdEnd <= w.now() {
				since = max(since, c.holdEnd)
			}
		}
	}
	if w.now()-since > b.patience() {
		if b.held {
			if end := b.holding(); end > 0 {
				w.Probe("others-resolved-meanwhile")
				b.lastProg = end
				return false
			}
		}
		b.stuck = true
		return true
	}
	if w.faultsActive() || !b.idle() {
		b.doneT = 0
		return false
	}
	if b.expireOp {
		b.operator()
	}
	if b.pending() != "" || b.txPending() != "" {
		b.doneT = 0
		return false
	}
	if curProp == "C10" && b.cleanOn {
		for _, e := range b.all {
			if e.rowAt != 0 && w.now()-b.createdAt(e) < b.reten+20*time.Second {
				b.doneT = 0
				return false
			}
		}
		if b.cleanPending() != "" {
			b.doneT = 0
			return false
		}
	}
	if b.doneT == 0 {
		b.doneT = w.now() + 1
		w.At(b.tail+2, func() {})
	}
	return w.now() >= b.doneT+b.tail
}

// operator marks deliveries that failed for good as expired, which is the
// documented way to unblock a sender.
func (b *busRun) operator() {
	for _, e := range b.all {
		if e.st != ddd.SendTypeFIFO && !b.mixed[e.sender] {
			continue
		}
		for _, sv := range b.svcs {
			d := e.deliver[sv.name]
			if d.status == 21 && !d.expired {
				d.expired = true
				w := b.w
				tx := w.db.Begin(0)
				tx.SetAuto()
				_, err := tx.Exec("UPDATE `ddd_domain_service_event` SET `status`=? WHERE service = ? AND event_id = ?", []any{int64(31), sv.name, e.rowID})
				if err != nil {
					tx.Rollback()
					d.expired = false
					continue
				}
				w.Log("operator expires %s on %s", e.key, sv.name)
				tx.Commit()
			}
		}
	}
}

func busFinal(w *World) {
	b := w.extra.(*busRun)
	if w.truncated {
		w.Probe("truncated")
		w.Log("truncated: pending=%q tx=%q clean=%q idle=%v", b.pending(), b.txPending(), b.cleanPending(), b.idle())
	}
	// Partial dispatches: all events of one accepted batch reach all services or none.
	if w.why == "done" && !b.stuck {
		b.checkPartial()
	}
	if w.why != "time" && !b.stuck {
		return
	}
	if !b.idle() {
		var sb strings.Builder
		for _, bn := range b.nodes {
			fmt.Fprintf(&sb, " %s alive=%v ready=%v registered=%v", bn.n.name, bn.n.alive, bn.ready, bn.svc.rowAt != 0)
		}
		w.Fail("C06:stuck", "the system never becomes idle after faults stopped:%s", sb.String())
		return
	}
	if s := b.pending(); s != "" {
		if strings.Contains(s, "transaction") && strings.Contains(s, "is not delivered") {
			w.Fail("C05:committed-not-delivered", "%s", s)
		}
		w.Fail("C06:not-delivered", "%s", s)
		if curProp == "C08" {
			w.Fail("C08:blocked-forever", "%s", s)
		}
		if curProp == "C09" {
			w.Fail("C09:not-retried", "%s", s)
		}
	}
	if s := b.txPending(); s != "" {
		w.Fail("C05:unresolved", "%s", s)
	}
	if s := b.cleanPending(); s != "" {
		w.Fail("C10:never-cleaned", "%s", s)
	}
	b.checkPartial()
}

func (b *busRun) checkPartial() {
	for _, c := range b.cmds {
		if c.started == 0 {
			continue
		}
		var yes, no []string
		if c.noChk {
			for _, e := range c.events {
				if e.st == ddd.SendTypeTransaction {
					if e.rowAt != 0 {
						yes = append(yes, e.key)
					} else {
						no = append(no, e.key)
					}
				}
			}
			if len(yes) > 0 && len(no) > 0 {
				b.w.Fail("C05:partial", "of the message transaction of command %d the events %v are stored, %v are not", c.n, yes, no)
			}
			yes, no = nil, nil
		}
		for _, e := range c.events {
			if e.st == ddd.SendTypeTransaction {
				continue
			}
			for _, sv := range b.svcs {
				if sv.rowAt == 0 || sv.rowAt >= c.started {
					continue
				}
				if e.deliver[sv.name].seRow {
					yes = append(yes, e.key+"@"+sv.name)
				} else {
					no = append(no, e.key+"@"+sv.name)
				}
			}
		}
		if len(yes) > 0 && len(no) > 0 {
			sort.Strings(yes)
			sort.Strings(no)
			b.w.Fail("C06:partial-dispatch", "the batch of command %d was accepted in part: %v but not %v", c.n, yes, no)
		}
	}
}
