package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	ddd "github.com/bytedance/dddfirework"
	dtimer "github.com/bytedance/dddfirework/d_timer/sql"
	eb "github.com/bytedance/dddfirework/eventbus/mysql"
	exec "github.com/bytedance/dddfirework/executor/mysql"
	dblock "github.com/bytedance/dddfirework/lock/db"
	"github.com/go-logr/logr"

	"vsim/simdb"
)

// C16: whole system. One engine per process (all nodes of the simulation share
// its registrations, as replicas of one binary do) over proxies that lead to the
// node of the calling goroutine: executor/mysql, eventbus/mysql, lock/db and
// d_timer/sql of that node. Commands raise events, event handlers run commands
// that raise events, cron tasks run functions and commands.

// ---- entities

// Fx is the trace of one command: "r<n>" of a root command, "<event>.<handler>.<service>" of a handler.
type Fx struct {
	ddd.BaseEntity
	Note string
}

type FxPO struct {
	ID   string `gorm:"primaryKey;type:varchar(64);column:id"`
	Note string `gorm:"column:note;type:text"`
}

func (o *FxPO) GetID() string     { return o.ID }
func (o *FxPO) TableName() string { return "fx" }

// Ctr is read, incremented and written under its lock.
type Ctr struct {
	ddd.BaseEntity
	V int64
}

type CtrPO struct {
	ID string `gorm:"primaryKey;type:varchar(64);column:id"`
	V  int64  `gorm:"column:v"`
}

func (o *CtrPO) GetID() string     { return o.ID }
func (o *CtrPO) TableName() string { return "ctr" }

// ---- events

type FxInner struct {
	N int64
	S []string
}

type FxEvent struct {
	T, Key, Sender string
	Num            int64
	Rate           float64
	Raw            []byte
	Tags           map[string]string
	When           time.Time
	In             *FxInner
	List           []FxInner
	Text           string            `json:",omitempty"`
	More           map[string]string `json:",omitempty"`
	Next           *FxInner          `json:",omitempty"`
}

func (e *FxEvent) GetType() ddd.EventType { return ddd.EventType(e.T) }
func (e *FxEvent) GetSender() string      { return e.Sender }

// FxShort is a consumer's own, smaller view of the same event.
type FxShort struct {
	Key string
	Num int64
}

// FxWrong cannot be decoded from the event.
type FxWrong struct{ Key int }

type FxErr struct{ s string }

func (e *FxErr) Error() string { return e.s }

type fxStatus int

// handler kinds
const (
	fkFn       = iota // function, typed
	fkRaw             // function, *DomainEvent
	fkPtrErr          // function returning a concrete error pointer
	fkShort           // function, smaller type
	fkWrong           // function whose type cannot be decoded
	fkCmd             // constructor -> ICommand
	fkMain            // constructor -> ICommandMain
	fkMF              // constructor -> MainFunc
	fkFunc            // constructor -> func(ctx, repo) error
	fkRawCmd          // constructor(*DomainEvent) -> ICommandMain
	fkWrongCmd        // constructor whose type cannot be decoded
	fkNoInit          // constructor -> ICommandMain with Main only
)

func fkIsFn(k int) bool   { return k <= fkWrong }
func fkWrongT(k int) bool { return k == fkWrong || k == fkWrongCmd }

// fxTypes: the handlers of each event type, in registration order.
var fxTypes = []struct {
	name string
	h    []int
	tx   int // 0 none, 1 typed checker, 2 raw, 3 checker returning another integer type, 4 one that cannot be decoded
}{
	{"fx_fn", []int{fkFn}, 0},
	{"fx_cmd", []int{fkCmd}, 0},
	{"fx_main", []int{fkMain}, 0},
	{"fx_mf", []int{fkMF}, 0},
	{"fx_multi", []int{fkFn, fkRaw, fkMain, fkShort}, 0},
	{"fx_mix", []int{fkCmd, fkMF, fkRawCmd, fkPtrErr}, 0},
	{"fx_twice", []int{fkFunc, fkFn, fkFn, fkFunc}, 0},
	{"fx_none", nil, 0},
	{"fx_noinit", []int{fkNoInit, fkRaw}, 0},
	{"fx_bad", []int{fkRaw, fkWrong, fkFn}, 0},
	{"fx_badcmd", []int{fkMain, fkWrongCmd}, 0},
	{"fx_txt", []int{fkMain, fkFn}, 1},
	{"fx_txr", []int{fkFunc}, 2},
	{"fx_txi", []int{fkCmd, fkRaw}, 3},
	{"fx_txw", []int{fkMain}, 4},
}

const fxTx0, fxBad0, fxBad1 = 11, 9, 10

func fxKinds(typ string) []int {
	for _, t := range fxTypes {
		if t.name == typ {
			return t.h
		}
	}
	return nil
}

type fxCron struct {
	key, spec, svc string
	cmd            bool
}

var fxCrons = []fxCron{
	{"fxc_fn_A", "0/3 * * * * ?", "svcA", false},
	{"fxc_cmd_A", "0/4 * * * * ?", "svcA", true},
	{"fxc_fn_B", "@every 5s", "svcB", false},
	{"fxc_cmd_B", "0/2 * * * * ?", "svcB", true},
}

// ---- one process

var fxOnce sync.Once
var fxEng *ddd.Engine
var fxOnEvent ddd.DomainEventHandler
var fxOnCheck ddd.DomainEventTXChecker
var fxOnTimer ddd.TimerHandler
var fxCronRegs []fxCron
var fxDup []string // duplicate registrations that were accepted

func fxRun0() *fxRun {
	w, _, _ := self()
	return w.extra.(*fxRun)
}

func fxHere() (*fxRun, *fxNode) {
	w, n, _ := self()
	r := w.extra.(*fxRun)
	return r, r.nodes[n.idx-1]
}

type fxLock struct{}

func (fxLock) Lock(ctx context.Context, key string) (any, error) {
	_, nd := fxHere()
	return nd.lk.Lock(ctx, key)
}
func (fxLock) UnLock(ctx context.Context, l any) error {
	_, nd := fxHere()
	return nd.lk.UnLock(ctx, l)
}

type fxExec struct{}

func (fxExec) ex() ddd.IExecutor { _, nd := fxHere(); return nd.ex }
func (e fxExec) Begin(ctx context.Context) (context.Context, error) {
	return e.ex().Begin(ctx)
}
func (e fxExec) Commit(ctx context.Context) error   { return e.ex().Commit(ctx) }
func (e fxExec) RollBack(ctx context.Context) error { return e.ex().RollBack(ctx) }
func (e fxExec) Entity2Model(entity, parent ddd.IEntity, op ddd.OpType) (ddd.IModel, error) {
	return e.ex().Entity2Model(entity, parent, op)
}
func (e fxExec) Model2Entity(m ddd.IModel, entity ddd.IEntity) error {
	return e.ex().Model2Entity(m, entity)
}
func (e fxExec) Exec(ctx context.Context, a *ddd.Action) error { return e.ex().Exec(ctx, a) }

type fxBus struct{ boot bool }

func (fxBus) bus() *eb.EventBus { _, nd := fxHere(); return nd.bus }
func (b fxBus) Dispatch(ctx context.Context, evt ...*ddd.DomainEvent) error {
	return b.bus().Dispatch(ctx, evt...)
}
func (b fxBus) DispatchBegin(ctx context.Context, evt ...*ddd.DomainEvent) (context.Context, error) {
	return b.bus().DispatchBegin(ctx, evt...)
}
func (b fxBus) Commit(ctx context.Context) error   { return b.bus().Commit(ctx) }
func (b fxBus) Rollback(ctx context.Context) error { return b.bus().Rollback(ctx) }
func (b fxBus) RegisterEventHandler(cb ddd.DomainEventHandler) {
	if fxEng == nil {
		fxOnEvent = cb
		return
	}
	_, nd := fxHere()
	nd.bus.RegisterEventHandler(fxWrapEvent(cb))
}
func (b fxBus) RegisterEventTXChecker(cb ddd.DomainEventTXChecker) {
	if fxEng == nil {
		fxOnCheck = cb
		return
	}
	_, nd := fxHere()
	nd.bus.RegisterEventTXChecker(fxWrapCheck(cb))
}

type fxTimer struct{}

func (fxTimer) RegisterTimerHandler(cb ddd.TimerHandler) {
	if fxEng == nil {
		fxOnTimer = cb
		return
	}
	_, nd := fxHere()
	nd.tm.RegisterTimerHandler(fxWrapTimer(cb))
}
func (fxTimer) RunCron(key, cron string, data []byte) error {
	fxCronRegs = append(fxCronRegs, fxCron{key: key, spec: cron, svc: "svc" + key[len(key)-1:]})
	return nil
}
func (fxTimer) RunOnce(key string, t time.Time, data []byte) error {
	_, nd := fxHere()
	return nd.tm.RunOnce(key, t, data)
}
func (fxTimer) Cancel(key string) error { _, nd := fxHere(); return nd.tm.Cancel(key) }

func fxPostSave(ctx context.Context, res *ddd.Result) {
	_, nd := fxHere()
	for _, h := range nd.hooks {
		h(ctx, res)
	}
}

func init() {
	exec.RegisterEntity2Model(&Fx{}, func(entity, parent ddd.IEntity, op ddd.OpType) (exec.IModel, error) {
		d := entity.(*Fx)
		return &FxPO{ID: d.GetID(), Note: d.Note}, nil
	}, func(po exec.IModel, do ddd.IEntity) error {
		do.(*Fx).SetID(po.(*FxPO).ID)
		do.(*Fx).Note = po.(*FxPO).Note
		return nil
	})
	exec.RegisterEntity2Model(&Ctr{}, func(entity, parent ddd.IEntity, op ddd.OpType) (exec.IModel, error) {
		d := entity.(*Ctr)
		return &CtrPO{ID: d.GetID(), V: d.V}, nil
	}, func(po exec.IModel, do ddd.IEntity) error {
		do.(*Ctr).SetID(po.(*CtrPO).ID)
		do.(*Ctr).V = po.(*CtrPO).V
		return nil
	})
}

func mustPanic(what string, f func()) {
	defer func() {
		if recover() == nil {
			fxDup = append(fxDup, what)
		}
	}()
	f()
}

var fxRefused any // panic of a registration that must be accepted

// fxRegister is the start-up code of the simulated binary.
func fxRegister() {
	defer func() { fxRefused = recover() }()
	e := ddd.NewEngine(fxLock{}, fxExec{}, ddd.WithEventBus(fxBus{}), ddd.WithTimer(fxTimer{}),
		ddd.WithPostSave(fxPostSave), ddd.WithLogger(logr.Discard()))
	for _, t := range fxTypes {
		typ := ddd.EventType(t.name)
		for i, k := range t.h {
			switch k {
			case fkFn:
				ddd.RegisterEventHandler(typ, func(ctx context.Context, evt *FxEvent) error {
					return fxRun0().fn(ctx, i, evt.Key, evt)
				})
			case fkRaw:
				ddd.RegisterEventHandler(typ, func(ctx context.Context, evt *ddd.DomainEvent) error {
					r := fxRun0()
					return r.fn(ctx, i, r.rawKey(evt), evt)
				})
			case fkPtrErr:
				ddd.RegisterEventHandler(typ, func(ctx context.Context, evt *FxEvent) *FxErr {
					if err := fxRun0().fn(ctx, i, evt.Key, evt); err != nil {
						return &FxErr{err.Error()}
					}
					return nil
				})
			case fkShort:
				ddd.RegisterEventHandler(typ, func(ctx context.Context, evt *FxShort) error {
					return fxRun0().fn(ctx, i, evt.Key, evt)
				})
			case fkWrong:
				ddd.RegisterEventHandler(typ, func(ctx context.Context, evt *FxWrong) error {
					r := fxRun0()
					r.w.Fail("C16:undecodable-called", "a handler of %s was called with an event that its type cannot hold: %+v", typ, evt)
					return nil
				})
			case fkCmd:
				e.RegisterEventHandler(typ, func(evt *FxEvent) ddd.ICommand { return &fxICmd{c: fxRun0().construct(i, evt.Key, evt)} })
			case fkMain:
				e.RegisterEventHandler(typ, func(evt *FxEvent) ddd.ICommandMain {
					return &fxMainCmd{c: fxRun0().construct(i, evt.Key, evt)}
				})
			case fkMF:
				e.RegisterEventHandler(typ, func(evt *FxEvent) ddd.MainFunc {
					return fxRun0().construct(i, evt.Key, evt).body
				})
			case fkFunc:
				e.RegisterEventHandler(typ, func(evt *FxEvent) func(context.Context, *ddd.Repository) error {
					return fxRun0().construct(i, evt.Key, evt).body
				})
			case fkRawCmd:
				e.RegisterEventHandler(typ, func(evt *ddd.DomainEvent) *fxMainCmd {
					r := fxRun0()
					return &fxMainCmd{c: r.construct(i, r.rawKey(evt), evt)}
				})
			case fkWrongCmd:
				e.RegisterEventHandler(typ, func(evt *FxWrong) ddd.MainFunc {
					r := fxRun0()
					r.w.Fail("C16:undecodable-called", "a handler of %s was called with an event that its type cannot hold: %+v", typ, evt)
					return func(context.Context, *ddd.Repository) error { return nil }
				})
			case fkNoInit:
				e.RegisterEventHandler(typ, func(evt *FxEvent) *fxBareCmd {
					return &fxBareCmd{c: fxRun0().construct(i, evt.Key, evt)}
				})
			}
		}
		switch t.tx {
		case 1:
			ddd.RegisterEventTXChecker(typ, func(evt *FxEvent) ddd.TXStatus { return fxRun0().check(evt.Key, evt) })
		case 2:
			ddd.RegisterEventTXChecker(typ, func(evt *ddd.DomainEvent) ddd.TXStatus {
				r := fxRun0()
				return r.check(r.rawKey(evt), evt)
			})
		case 3:
			ddd.RegisterEventTXChecker(typ, func(evt *FxEvent) fxStatus { return fxStatus(fxRun0().check(evt.Key, evt)) })
		case 4:
			ddd.RegisterEventTXChecker(typ, func(evt *FxWrong) ddd.TXStatus {
				fxRun0().w.Fail("C16:undecodable-called", "the checker of %s was called with an event that its type cannot hold: %+v", typ, evt)
				return ddd.TXUnknown
			})
		}
		if t.tx != 0 {
			mustPanic("transaction checker of "+t.name, func() {
				ddd.RegisterEventTXChecker(typ, func(evt *FxEvent) ddd.TXStatus { return ddd.TXRollBack })
			})
		}
	}
	for _, c := range fxCrons {
		key := ddd.EventType(c.key)
		if c.cmd {
			e.RegisterCronTaskOfCommand(key, c.spec, func(key, cron string) ddd.ICommand {
				return &fxICmd{c: fxRun0().cronCmd(key, cron)}
			})
		} else {
			e.RegisterCronTask(key, c.spec, func(key, cron string) { fxRun0().cronFn(key, cron) })
		}
		mustPanic("cron task "+c.key, func() { e.RegisterCronTask(key, "* * * * * ?", func(key, cron string) {}) })
		mustPanic("cron command "+c.key, func() {
			e.RegisterCronTaskOfCommand(key, "* * * * * ?", func(key, cron string) ddd.ICommand { return nil })
		})
	}
	fxEng = e
}

// ---- the run

type fxSpec struct {
	fails int
	mode  int // how it fails: 1 error, 2 panic, 3 error before the body
	brk   bool
	run   bool // a function handler that runs a command itself
	ctr   string
	child []*fxEv
	dur   time.Duration
	calls int
	ok    bool // a call of it returned success (only meaningful without effect)
}

type fxEv struct {
	key, typ string
	st       ddd.SendType
	parent   string // row of the command that raises it
	pay      *FxEvent
	ids      map[string]*ddd.DomainEvent
	spec     map[string][]*fxSpec // by service
	live     int                  // commands raising it that are still running
}

type fxRoot struct {
	n     int
	id    string
	form  int
	ctr   string
	evs   []*fxEv
	pause time.Duration
	sleep time.Duration
	fail  int
	done  bool
}

// fxCall is one call of a handler or cron task.
type fxCall struct {
	att     *fxAtt
	h       int
	key     string // event key
	ev      *fxEv
	svc     string
	sp      *fxSpec
	cmd     bool
	arg     *FxEvent // what it was called with; its own
	row     string   // effect row, "" if none
	ctr     string
	inits   int
	builds  int
	bodies  int
	posts   int
	began   time.Duration
	ended   bool // returned (functions) or its body returned
	err     error
	failed  bool // will make the handler fail
	broke   bool
	panics  bool
	node    *Node
	inc     int
	counted string
	owners  []*fxEv // events raised
	over    bool
}

// fxAtt is one delivery of an event to the registered handlers.
type fxAtt struct {
	evt   *ddd.DomainEvent
	ev    *fxEv
	calls []*fxCall
	svc   string
	hit0  int
	cron  string // key of a cron run
	start time.Duration
}

type fxNode struct {
	n     *Node
	svc   string
	bus   *eb.EventBus
	tm    *dtimer.DBTimer
	lk    *dblock.DBLock
	ex    ddd.IExecutor
	hooks []ddd.PostSaveFunc
	ready bool
	late  time.Duration
}

type fxRun struct {
	w        *World
	nodes    []*fxNode
	svcs     []string
	roots    []*fxRoot
	ev       map[string]*fxEv
	evs      []*fxEv
	rows     map[string]time.Duration // committed effect rows
	atts     map[uint64]*fxAtt
	cmds     map[string][]*fxCall // live commands by row
	lockAt   map[string]time.Duration
	ctrs     map[string]int64
	holders  map[uint64]*fxCall
	svcRow   map[string]bool
	cronRun  map[string]time.Duration // last run
	ttl      time.Duration
	txDue    time.Duration
	runIntv  time.Duration
	retry    time.Duration
	conc     int
	cronOn   bool
	lastProg time.Duration
	stuck    bool
	lateCmd  bool // some command outlived the lease of its lock
	doneT    time.Duration
	idleT    int
	nEv      int
	crons    []fxCron
}

func fxScenario() *Scenario {
	fxOnce.Do(fxRegister) // outside of any run
	return &Scenario{Name: "flow", Setup: fxSetup, Final: fxFinal, Limit: 40 * time.Minute, Steps: 80000,
		Real:   []string{"dddfirework engine (event and cron registration, routing, decoding, handler commands, transaction checkers)", "executor/mysql", "eventbus/mysql", "lock/db", "d_timer/sql"},
		Stub:   []string{"business commands, event handlers and transaction checkers (generated programs)", "one engine per process, redirected to the components of the calling node"},
		Assume: []string{"handlers return", "cron tasks and transaction checkers do not panic", "commands end before the lease of their locks where lost updates are judged"}}
}

func fxSetup(w *World) {
	W, F := w.W, w.F
	r := &fxRun{w: w, ev: map[string]*fxEv{}, rows: map[string]time.Duration{}, atts: map[uint64]*fxAtt{}, cmds: map[string][]*fxCall{},
		ctrs: map[string]int64{}, holders: map[uint64]*fxCall{}, svcRow: map[string]bool{}, cronRun: map[string]time.Duration{}}
	w.extra = r
	for _, m := range []any{&eb.EventPO{}, &eb.Transaction{}, &eb.ServicePO{}, &eb.ServiceEventPO{}, &dtimer.TimerJob{}, &dblock.ResourceLock{}, &FxPO{}, &CtrPO{}} {
		createTable(w.db, m)
	}
	w.db.OnCommit = r.onCommit
	if fxRefused != nil {
		w.Fail("C16:registration-refused", "registering the handlers and cron tasks panics: %v", fxRefused)
		return
	}
	if len(fxDup) > 0 {
		w.Fail("C16:duplicate-registration", "a second registration was accepted: %v", fxDup)
	}
	r.ttl = time.Duration(W.R(5, 15)) * time.Second
	r.txDue = []time.Duration{3 * time.Second, 10 * time.Second, 30 * time.Second}[W.N(3)]
	r.runIntv = []time.Duration{100 * time.Millisecond, 500 * time.Millisecond}[W.N(2)]
	r.retry = time.Duration(W.R(1, 10)) * 100 * time.Millisecond
	r.conc = W.R(1, 3)
	r.svcs = []string{"svcA", "svcB"}[:W.R(1, 2)]
	r.cronOn = W.P(600)
	if r.cronOn {
		for _, c := range fxCrons {
			for _, s := range r.svcs {
				if c.svc == s && W.P(700) {
					r.crons = append(r.crons, c)
				}
			}
		}
	}
	nn := W.R(len(r.svcs), len(r.svcs)*2)
	for i := 0; i < nn; i++ {
		nd := &fxNode{svc: r.svcs[i%len(r.svcs)]}
		if i >= len(r.svcs) && W.P(250) {
			nd.late = time.Duration(W.R(1, 20)) * time.Second
		}
		nd.n = w.addNode(fmt.Sprintf("n%d/%s", i+1, nd.svc), func(n *Node) { r.boot(nd, n) })
		r.nodes = append(r.nodes, nd)
	}
	ctrs := []string{"ca", "cb"}
	nr := W.R(1, 5)
	for i := 0; i < nr; i++ {
		c := &fxRoot{n: i + 1, id: fmt.Sprintf("r%d", i+1), form: W.N(5)}
		c.pause = time.Duration(W.N(8)) * 250 * time.Millisecond
		if W.P(200) {
			c.sleep = time.Duration(W.N(30)) * 100 * time.Millisecond
		}
		if W.P(150) {
			c.fail = W.R(1, 3)
		}
		if W.P(500) {
			c.ctr = ctrs[W.N(2)]
		}
		for k := W.R(1, 2); k > 0; k-- {
			e := r.newEvent(W, c.id, 0)
			if e.typ == "fx_txw" { // its checker decides for all events of the command
				c.evs = []*fxEv{e}
				break
			}
			c.evs = append(c.evs, e)
		}
		r.roots = append(r.roots, c)
	}
	if F.N(10) >= 4 {
		w.faultsOn, w.fault.on = true, true
		w.fault.rate = []int{2, 6, 15}[F.N(3)]
		w.fault.crashMax = 3
		for _, k := range []string{"err-before", "err-after", "deadlock", "lock-timeout", "sql-error", "stall", "crash-before", "crash-after", "partition", "slow"} {
			if F.N(2) == 1 {
				w.fault.kinds = append(w.fault.kinds, k)
			}
		}
		w.faultEnd = w.start + int64(time.Duration(F.R(5, 40))*time.Second)
		w.drawFocus(45)
		if F.N(4) == 3 {
			for i := F.R(1, 2); i > 0; i-- {
				nd := r.nodes[F.N(len(r.nodes))]
				at := time.Duration(F.N(20000)) * time.Millisecond
				w.At(at, func() {
					if nd.n.alive {
						nd.n.Crash(w.restartDelay())
					}
				})
			}
		}
	}
	for _, nd := range r.nodes {
		w.At(nd.late, func() { nd.n.Start() })
	}
	w.done = r.done
}

func (r *fxRun) newEvent(W *Stream, parent string, depth int) *fxEv {
	r.nEv++
	e := &fxEv{key: fmt.Sprintf("e%d", r.nEv), parent: parent, ids: map[string]*ddd.DomainEvent{}, spec: map[string][]*fxSpec{}}
	ti := W.N(len(fxTypes))
	if (ti == fxBad0 || ti == fxBad1) && !W.P(300) {
		ti -= fxBad0
	}
	t := fxTypes[ti]
	e.typ = t.name
	e.st = []ddd.SendType{ddd.SendTypeNormal, ddd.SendTypeFIFO, ddd.SendTypeLaxFIFO}[W.N(3)]
	if ti == fxBad0 || ti == fxBad1 {
		e.st = ddd.SendTypeNormal
	}
	if t.tx != 0 {
		e.st = ddd.SendTypeTransaction
	}
	p := &FxEvent{T: e.typ, Key: e.key, Sender: "s" + parent}
	if ti == fxBad0 || ti == fxBad1 {
		p.Sender = "bad-" + e.key // it never succeeds and must not block ordered events
	}
	switch W.N(3) {
	case 1:
		p.Num, p.Rate, p.Text = int64(W.N(1000)), 0.1, "a<b>&\u2028\"'`\\ü\n"
		p.More, p.Next = map[string]string{"x": e.key}, &FxInner{N: 3}
		p.In = &FxInner{N: 1<<62 + int64(W.N(1000)), S: []string{"", "x"}}
	case 2:
		p.Num, p.Rate = -1<<63, 1e300
		p.Raw, p.Tags = []byte{0, 255, 10}, map[string]string{"k": "v", "": "e"}
		p.When = time.Unix(1700000000, int64(W.N(1000000000))).UTC()
		p.List = []FxInner{{N: int64(W.N(9))}, {S: []string{"z"}}}
	}
	e.pay = p
	r.ev[e.key] = e
	r.evs = append(r.evs, e)
	for _, svc := range r.svcs {
		for i, k := range t.h {
			s := &fxSpec{}
			if W.P(250) {
				s.fails, s.mode = W.R(1, 3), W.R(1, 3)
			}
			if W.P(200) {
				s.dur = time.Duration(W.N(20)) * 100 * time.Millisecond
			}
			if fkIsFn(k) {
				s.run = !fkWrongT(k) && W.P(300)
			} else if W.P(100) {
				s.brk = true
			}
			if (k == fkCmd || k == fkMain || k == fkRawCmd) && W.P(400) && ti != fxBad0 && ti != fxBad1 { // an event that is retried for ever may starve others of the lock
				s.ctr = []string{"ca", "cb"}[W.N(2)]
			}
			e.spec[svc] = append(e.spec[svc], s)
			if depth < 2 && !fkWrongT(k) && (!fkIsFn(k) || s.run) && !s.brk && W.P(250) {
				s.child = append(s.child, r.newEvent(W, rowOf(e.key, i, svc), depth+1))
			}
		}
	}
	return e
}

func rowOf(key string, h int, svc string) string { return fmt.Sprintf("%s.%d.%s", key, h, svc) }

func (r *fxRun) progress() { r.lastProg = r.w.now() }

func (r *fxRun) boot(nd *fxNode, n *Node) {
	w := r.w
	nd.ready = false
	db := openGorm(w)
	nd.ex = exec.NewExecutor(db)
	nd.lk = dblock.NewDBLock(db, r.ttl, func(o *dblock.Options) { o.Logger = logr.Discard() })
	bus := eb.NewEventBus(nd.svc, db, func(o *eb.Options) {
		o.Logger = logr.Discard()
		if r.runIntv != 100*time.Millisecond { // the documented default
			o.RunInterval = r.runIntv
		}
		o.ConsumeConcurrent = r.conc
		o.TXCheckTimeout = r.txDue
		o.RetryInterval, o.RetryLimit = r.retry, 1<<30
	})
	tm := dtimer.NewDBTimer(nd.svc, db, func(o *dtimer.Options) { o.Logger = logr.Discard() })
	self()
	var o ddd.Options
	for _, opt := range bus.Options() {
		opt.ApplyToOptions(&o)
	}
	nd.bus, nd.tm, nd.hooks = bus, tm, o.PostSaveHooks
	bus.RegisterEventHandler(fxWrapEvent(fxOnEvent))
	bus.RegisterEventTXChecker(fxWrapCheck(fxOnCheck))
	tm.RegisterTimerHandler(fxWrapTimer(fxOnTimer))
	for _, c := range fxCronRegs {
		for _, want := range r.crons {
			if c.key != want.key || c.svc != nd.svc {
				continue
			}
			for {
				err := tm.RunCron(c.key, c.spec, nil)
				self()
				if err == nil {
					break
				}
				w.Sleep(500 * time.Millisecond)
			}
		}
	}
	bus.Start(context.Background())
	tm.Start(context.Background())
	nd.ready = true
	r.progress()
	w.Log("%s ready", n.name)
	if nd == r.nodes[0] {
		n.Go(0, func() { r.client(n) })
	}
}

// client issues the root commands; they are attributed to the first node.
func (r *fxRun) client(n *Node) {
	for _, s := range r.svcs {
		for !r.svcRow[s] {
			r.w.Sleep(200 * time.Millisecond)
		}
	}
	for _, c := range r.roots {
		if c.done {
			continue
		}
		c.done = true
		r.w.Sleep(c.pause)
		n.Go(r.w.newCmd(), func() { r.root(c) })
	}
	r.idleT = n.inc
}

func (r *fxRun) root(c *fxRoot) {
	w, n, _ := self()
	call := &fxCall{h: -1, row: c.id, ctr: c.ctr, cmd: true, node: n, inc: n.inc, sp: &fxSpec{mode: c.fail, child: c.evs, dur: c.sleep, fails: min(c.fail, 1)}}
	if c.fail == 3 {
		call.sp.brk, call.sp.fails = true, 0
	}
	w.Log("%s root command %s form %d", n.name, c.id, c.form)
	r.enter(call)
	var res *ddd.Result
	func() {
		defer func() {
			if p := recover(); p != nil {
				if s, ok := p.(string); !ok || s != "business panic" {
					panic(p)
				}
			}
		}()
		ctx := context.Background()
		switch c.form {
		case 0:
			call.ctr = ""
			res = fxEng.Run(ctx, call.body)
		case 1:
			res = fxEng.Run(ctx, &fxMainCmd{c: call})
		case 2:
			res = fxEng.Run(ctx, &fxICmd{c: call})
		case 3:
			res = fxEng.RunCommand(ctx, &fxICmd{c: call})
		case 4:
			res = fxEng.NewStage().Main(func(ctx context.Context, repo *ddd.Repository) error {
				call.ctr = ""
				return call.body(ctx, repo)
			}).Save(ctx)
		}
	}()
	self()
	r.leave(call)
	r.progress()
	ok := res != nil && res.Error == nil && !res.Break
	w.Log("%s root command %s ends ok=%v", n.name, c.id, ok)
	r.judgeCommand(call, ok)
}

// enter and leave bracket a command that may raise events.
func (r *fxRun) enter(c *fxCall) {
	c.began = r.w.now()
	for _, e := range c.sp.child {
		e.live++
	}
	r.cmds[c.row] = append(r.cmds[c.row], c)
}

func (r *fxRun) leave(c *fxCall) {
	if c.over {
		return
	}
	c.over = true
	r.lateCmd = r.lateCmd || c.late(r)
	l := r.cmds[c.row]
	for i, x := range l {
		if x == c {
			r.cmds[c.row] = append(l[:i:i], l[i+1:]...)
		}
	}
}

// running: some command that would store row is still at work.
func (r *fxRun) running(row string) bool {
	for _, c := range r.cmds[row] {
		if c.node.alive && c.node.inc == c.inc {
			return true
		}
	}
	return false
}

// ---- deliveries

func fxWrapEvent(cb ddd.DomainEventHandler) ddd.DomainEventHandler {
	return func(ctx context.Context, evt *ddd.DomainEvent) error {
		if cb == nil {
			fxRun0().w.Fail("C16:no-callback", "the engine left the event bus without a handler")
			return nil
		}
		return fxRun0().deliver(ctx, evt, cb)
	}
}

func fxWrapCheck(cb ddd.DomainEventTXChecker) ddd.DomainEventTXChecker {
	return func(evt *ddd.DomainEvent) ddd.TXStatus {
		r := fxRun0()
		if cb == nil {
			r.w.Fail("C16:no-callback", "the engine left the event bus without a checker")
			return ddd.TXUnknown
		}
		want := r.truth(r.rawKey(evt))
		got := cb(evt)
		self()
		if evt.Type == "fx_txw" {
			r.w.Probe("checker-undecodable")
			if got != ddd.TXRollBack {
				r.w.Fail("C16:checker-answer", "the checker of %s cannot be asked, the bus gets %v", evt.Type, got)
			}
			return got
		}
		if t := r.truth(r.rawKey(evt)); got != want && got != t {
			r.w.Fail("C16:checker-answer", "the checker of %s answers %v to the engine, the bus gets %v", evt.Type, want, got)
		}
		return got
	}
}

func fxWrapTimer(cb ddd.TimerHandler) ddd.TimerHandler {
	return func(ctx context.Context, key, cron string, data []byte) error {
		if cb == nil {
			fxRun0().w.Fail("C16:no-callback", "the engine left the timer without a handler")
			return nil
		}
		return fxRun0().tick(ctx, key, cron, data, cb)
	}
}

func (r *fxRun) rawKey(evt *ddd.DomainEvent) string {
	var p FxEvent
	if err := json.Unmarshal(evt.Payload, &p); err != nil {
		r.w.Fail("C16:payload", "event %s arrives with a broken payload %q", evt.ID, evt.Payload)
	}
	return p.Key
}

func (r *fxRun) find(key string) *fxEv {
	e := r.ev[key]
	if e == nil {
		r.w.Fail("C16:payload", "an event with the unknown key %q arrives", key)
		select {}
	}
	return e
}

func (r *fxRun) deliver(ctx context.Context, evt *ddd.DomainEvent, cb ddd.DomainEventHandler) error {
	w, nd := r.w, r.nodes[mustNode()-1]
	e := r.find(r.rawKey(evt))
	a := &fxAtt{evt: evt, ev: e, svc: nd.svc, start: w.now(), hit0: nd.n.hit}
	id := runtime.SimID()
	old := r.atts[id]
	r.atts[id] = a
	w.Log("%s delivers %s (%s)", nd.n.name, e.key, e.typ)
	w.Probe("delivery")
	if e.st == ddd.SendTypeTransaction {
		if _, ok := r.rows[e.parent]; !ok {
			w.Fail("C16:uncommitted-cause", "transactional event %s reaches %s although the command that raised it (%s) is not committed", e.key, nd.svc, e.parent)
		}
	}
	panicked := true
	var err error
	defer func() {
		r.atts[id] = old
		if panicked {
			r.judge(a, nil, true)
		}
	}()
	err = cb(ctx, evt)
	panicked = false
	self()
	r.judge(a, err, false)
	return err
}

func mustNode() int { _, n, _ := self(); return n.idx }

// judge decides whether one delivery treated the handlers as it should.
func (r *fxRun) judge(a *fxAtt, err error, panicked bool) {
	w, e := r.w, a.ev
	kinds := fxKinds(e.typ)
	for _, c := range a.calls {
		r.leave(c)
	}
	for i, c := range a.calls {
		if i >= len(kinds) || c.h != i {
			w.Fail("C16:order", "delivery of %s (%s) to %s calls the handlers %v, registered are %d in this order", e.key, e.typ, a.svc, a.order(), len(kinds))
			return
		}
	}
	n := len(a.calls)
	for i, c := range a.calls {
		last := i == n-1
		if c.panics && !(panicked && last) {
			w.Fail("C16:panic-swallowed", "a handler of %s panicked on %s, the delivery went on", e.key, a.svc)
		}
		if c.failed && !c.panics && (!last || err == nil) {
			w.Fail("C16:failure-ignored", "handler %d of %s failed on %s (%v), the delivery reports %v after %d handler(s)", i, e.key, a.svc, c.err, err, n)
		}
		if c.cmd && (!last || err == nil && !panicked) {
			r.judgeCommand(c, true)
		}
		if fkIsFn(kinds[i]) && !c.failed && !c.panics && last && err != nil && !(n < len(kinds) && fkWrongT(kinds[n])) {
			w.Fail("C16:failure-invented", "all handlers of %s called so far succeeded on %s, the delivery reports %v", e.key, a.svc, err)
		}
	}
	if panicked {
		if n == 0 || !a.calls[n-1].panics {
			w.Fail("C16:panic", "delivery of %s to %s panics although no handler did", e.key, a.svc)
		}
		return
	}
	if err == nil {
		w.Probe("delivery-ok")
		if n < len(kinds) {
			w.Fail("C16:handler-skipped", "delivery of %s (%s) to %s succeeds after %d of %d handlers", e.key, e.typ, a.svc, n, len(kinds))
		}
		return
	}
	w.Probe("delivery-failed")
	if n == len(kinds) && n > 0 {
		c := a.calls[n-1]
		if !c.cmd && !c.failed {
			w.Fail("C16:failure-invented", "all handlers of %s succeeded on %s, the delivery reports %v", e.key, a.svc, err)
		}
	}
	if n == 0 && (len(kinds) == 0 || !fkWrongT(kinds[0])) {
		w.Fail("C16:failure-invented", "delivery of %s (%s) to %s calls no handler and reports %v", e.key, e.typ, a.svc, err)
	}
	if n > 0 {
		if c := a.calls[n-1]; c.failed && c.err != nil && !errors.Is(err, c.err) && err.Error() != c.err.Error() {
			w.Fail("C16:wrong-error", "handler %d of %s failed with %q, the delivery reports %q", n-1, e.key, c.err, err)
		}
	}
}

func (a *fxAtt) order() (out []int) {
	for _, c := range a.calls {
		out = append(out, c.h)
	}
	return
}

// judgeCommand: what a command that reported ok must have done.
func (r *fxRun) judgeCommand(c *fxCall, ok bool) {
	if !c.cmd {
		return
	}
	w := r.w
	what := fmt.Sprintf("command %s", c.row)
	if c.bodies > 1 {
		w.Fail("C16:body-twice", "%s ran its body %d times", what, c.bodies)
	}
	if !ok {
		return
	}
	if c.bodies != 1 {
		w.Fail("C16:body-skipped", "%s reports success but its body ran %d times", what, c.bodies)
		return
	}
	if c.broke {
		return
	}
	if c.row != "" {
		if _, in := r.rows[c.row]; !in {
			w.Fail("C16:effect-lost", "%s reports success but nothing of it is stored", what)
		}
	}
	if c.posts >= 0 && c.inits > 0 && c.posts != 1 {
		w.Fail("C16:post-save", "%s succeeded, its PostSave ran %d times", what, c.posts)
	}
}

// begin records a handler call and checks what it was given.
func (r *fxRun) begin(h int, key string, arg any) *fxCall {
	w, n, _ := self()
	e := r.find(key)
	nd := r.nodes[n.idx-1]
	a := r.atts[runtime.SimID()]
	c := &fxCall{att: a, h: h, key: key, ev: e, svc: nd.svc, node: n, inc: n.inc}
	if a == nil || a.ev != e {
		w.Fail("C16:routing", "a handler is called with %s outside of a delivery of it", key)
		select {}
	}
	if h >= len(e.spec[nd.svc]) {
		w.Fail("C16:routing", "handler %d is called with %s, an event of type %s", h, key, e.typ)
		select {}
	}
	c.sp = e.spec[nd.svc][h]
	a.calls = append(a.calls, c)
	switch v := arg.(type) {
	case *FxEvent:
		if !reflect.DeepEqual(v, r.asDecoded(e)) {
			w.Fail("C16:payload", "handler %d of %s on %s is called with %+v, raised was %+v", h, key, nd.svc, v, e.pay)
		}
		// what a handler does with its copy is its own business
		*v = FxEvent{Key: "overwritten", T: "fx_none", Sender: rowOf(key, h, nd.svc), More: map[string]string{"gone": "1"}, Next: &FxInner{N: 7}}
		c.arg = v
	case *FxShort:
		if v.Num != e.pay.Num {
			w.Fail("C16:payload", "handler %d of %s on %s is called with %+v, raised was %+v", h, key, nd.svc, v, e.pay)
		}
		*v = FxShort{}
	case *ddd.DomainEvent:
		o := e.ids[v.ID]
		if o == nil || o.Type != v.Type || o.SendType != v.SendType || o.Sender != v.Sender || !o.CreatedAt.Equal(v.CreatedAt) || string(o.Payload) != string(v.Payload) {
			w.Fail("C16:payload", "handler %d of %s on %s is called with %+v, raised was %+v", h, key, nd.svc, v, o)
		}
	}
	return c
}

// keepsArg: nobody else writes into the event a handler was given.
func (c *fxCall) keepsArg() {
	if v := c.arg; v != nil && (v.Key != "overwritten" || v.Sender != rowOf(c.key, c.h, c.svc) || len(v.More) != 1 || v.Next == nil || v.Next.N != 7 || v.Num != 0) {
		fxRun0().w.Fail("C16:payload", "the event that handler %d of %s on %s was given changes while it runs: %+v", c.h, c.key, c.svc, v)
	}
}

func (r *fxRun) asDecoded(e *fxEv) *FxEvent {
	bs, err := json.Marshal(e.pay)
	if err != nil {
		panic(err)
	}
	p := &FxEvent{}
	if err := json.Unmarshal(bs, p); err != nil {
		panic(err)
	}
	return p
}

// fn is the body of a function handler.
func (r *fxRun) fn(ctx context.Context, h int, key string, arg any) (err error) {
	w := r.w
	c := r.begin(h, key, arg)
	w.Log("%s handler %d of %s", c.node.name, h, key)
	w.Seam("fn")
	c.sp.calls++
	fail := c.sp.calls <= c.sp.fails
	defer func() {
		c.err = err
		c.failed = err != nil
	}()
	if fail && c.sp.mode == 3 {
		return errBiz
	}
	if c.sp.run {
		sub := &fxCall{h: -1, row: rowOf(key, h, c.svc), cmd: true, node: c.node, inc: c.inc, svc: c.svc, sp: &fxSpec{child: c.sp.child, dur: c.sp.dur}}
		r.enter(sub)
		res := fxEng.Run(ctx, sub.body)
		self()
		r.leave(sub)
		r.judgeCommand(sub, res.Error == nil && !res.Break)
		if res.Error != nil {
			return res.Error
		}
	} else {
		w.Sleep(c.sp.dur)
	}
	c.keepsArg()
	if fail {
		if c.sp.mode == 2 {
			c.panics = true
			panic("business panic")
		}
		return errBiz
	}
	if !c.sp.ok {
		c.sp.ok = true
		r.progress()
	}
	return nil
}

// construct starts a handler that is a command.
func (r *fxRun) construct(h int, key string, arg any) *fxCall {
	c := r.begin(h, key, arg)
	c.cmd = true
	c.row = rowOf(key, h, c.svc)
	c.ctr = c.sp.ctr
	r.w.Log("%s handler command %d of %s", c.node.name, h, key)
	r.enter(c)
	return c
}

// ---- commands

type fxICmd struct {
	ddd.Command
	c  *fxCall
	fx *Fx
	ct *Ctr
}

func (k *fxICmd) Init(ctx context.Context) ([]string, error) { return k.c.init() }
func (k *fxICmd) Build(ctx context.Context, b ddd.DomainBuilder) ([]ddd.IEntity, error) {
	c := k.c
	c.builds++
	var out []ddd.IEntity
	k.fx = &Fx{}
	k.fx.SetID(c.row)
	if c.row != "" {
		if err := b.Build(ctx, k.fx); err == nil {
			out = append(out, k.fx)
		} else if errors.Is(err, ddd.ErrEntityNotFound) {
			k.fx = nil
		} else {
			return nil, err
		}
	}
	if c.ctr != "" {
		k.ct = &Ctr{}
		k.ct.SetID(c.ctr)
		if err := b.Build(ctx, k.ct); err == nil {
			out = append(out, k.ct)
		} else if errors.Is(err, ddd.ErrEntityNotFound) {
			k.ct = nil
		} else {
			return nil, err
		}
	}
	return out, nil
}
func (k *fxICmd) Act(ctx context.Context, cont ddd.RootContainer, roots ...ddd.IEntity) error {
	c := k.c
	return c.act(k.fx != nil && c.row != "", func(e ddd.IEntity) { cont.Add(e) }, func(id string) (*Ctr, error) { return k.ct, nil })
}
func (k *fxICmd) PostSave(ctx context.Context, res *ddd.Result) { k.c.post() }

type fxMainCmd struct{ c *fxCall }

func (k *fxMainCmd) Init(ctx context.Context) ([]string, error)           { return k.c.init() }
func (k *fxMainCmd) Main(ctx context.Context, repo *ddd.Repository) error { return k.c.body(ctx, repo) }
func (k *fxMainCmd) PostSave(ctx context.Context, res *ddd.Result)        { k.c.post() }

type fxBareCmd struct{ c *fxCall }

func (k *fxBareCmd) Main(ctx context.Context, repo *ddd.Repository) error {
	k.c.ctr = ""
	return k.c.body(ctx, repo)
}

func (c *fxCall) init() ([]string, error) {
	r := fxRun0()
	c.inits++
	if c.inits > 1 {
		r.w.Fail("C16:body-twice", "Init of command %s runs twice", c.row)
	}
	if c.sp.mode == 3 && c.sp.calls < c.sp.fails {
		c.sp.calls++
		c.failed, c.err = true, errBiz
		return nil, errBiz
	}
	c.began = r.w.now()
	if c.ctr != "" {
		return []string{c.ctr}, nil
	}
	return nil, nil
}

func (c *fxCall) post() {
	r := fxRun0()
	c.posts++
	if c.bodies != 1 {
		r.w.Fail("C16:post-save", "PostSave of command %s runs after %d executions of its body", c.row, c.bodies)
	}
	if _, ok := r.rows[c.row]; !ok && !c.broke && c.row != "" {
		r.w.Fail("C16:post-save", "PostSave of command %s runs before the command is stored", c.row)
	}
}

func (c *fxCall) body(ctx context.Context, repo *ddd.Repository) error {
	fx := &Fx{}
	fx.SetID(c.row)
	exists := true
	if err := repo.Get(ctx, fx); errors.Is(err, ddd.ErrEntityNotFound) {
		exists = false
	} else if err != nil {
		c.bodies++
		c.failed, c.err = true, err
		return err
	}
	return c.act(exists, func(e ddd.IEntity) { repo.Add(e) }, func(id string) (*Ctr, error) {
		ct := &Ctr{}
		ct.SetID(id)
		if err := repo.Get(ctx, ct); errors.Is(err, ddd.ErrEntityNotFound) {
			return nil, nil
		} else if err != nil {
			return nil, err
		}
		return ct, nil
	})
}

// act is the business of a command: store the effect row, count, raise events.
func (c *fxCall) act(exists bool, add func(ddd.IEntity), ctr func(string) (*Ctr, error)) (err error) {
	r := fxRun0()
	w := r.w
	c.bodies++
	defer func() {
		c.err, c.failed = err, err != nil && err != ddd.ErrBreak
		c.broke = err == ddd.ErrBreak
	}()
	w.Seam("body")
	fail := c.sp.calls < c.sp.fails
	if fail {
		c.sp.calls++
	}
	if fail && c.sp.mode == 3 {
		return errBiz
	}
	if !exists {
		var at interface {
			AddEvent(evt ddd.IEvent, opts ...ddd.EventOpt)
			GetEvents() []*ddd.DomainEvent
		}
		if c.row != "" {
			fx := &Fx{Note: c.key}
			fx.SetID(c.row)
			add(fx)
			at = fx
		}
		if c.ctr != "" {
			ct, err := ctr(c.ctr)
			if err != nil {
				return err
			}
			if ct == nil {
				ct = &Ctr{}
				ct.SetID(c.ctr)
				add(ct)
			}
			ct.V++
			ct.Dirty()
		}
		for _, e := range c.sp.child {
			p := *e.pay
			at.AddEvent(&p, ddd.WithSendType(e.st))
			l := at.GetEvents()
			de := *l[len(l)-1]
			e.ids[de.ID] = &de
		}
	}
	w.Sleep(c.sp.dur)
	c.keepsArg()
	if fail {
		if c.sp.mode == 2 {
			c.panics = true
			panic("business panic")
		}
		return errBiz
	}
	if c.sp.brk {
		if !c.sp.ok {
			c.sp.ok = true
			r.progress()
		}
		return ddd.ErrBreak
	}
	return nil
}

// ---- transaction checkers

// truth is what a truthful checker knows about the command that raised an event.
func (r *fxRun) truth(key string) ddd.TXStatus {
	e := r.ev[key]
	if e == nil {
		return ddd.TXRollBack
	}
	if _, ok := r.rows[e.parent]; ok {
		return ddd.TXCommit
	}
	if r.running(e.parent) {
		return ddd.TXUnknown
	}
	return ddd.TXRollBack
}

func (r *fxRun) check(key string, arg any) ddd.TXStatus {
	w := r.w
	self()
	e := r.find(key)
	switch v := arg.(type) {
	case *FxEvent:
		if !reflect.DeepEqual(v, r.asDecoded(e)) {
			w.Fail("C16:payload", "the checker of %s is called with %+v, raised was %+v", key, v, e.pay)
		}
	case *ddd.DomainEvent:
		if o := e.ids[v.ID]; o == nil || string(o.Payload) != string(v.Payload) || o.Type != v.Type {
			w.Fail("C16:payload", "the checker of %s is called with %+v, raised was %+v", key, v, o)
		}
	}
	w.Probe("checker")
	w.Log("checker asked about %s: %v", key, r.truth(key))
	return r.truth(key)
}

// ---- cron

func (r *fxRun) tick(ctx context.Context, key, cron string, data []byte, cb ddd.TimerHandler) error {
	w, n, _ := self()
	nd := r.nodes[n.idx-1]
	a := &fxAtt{cron: key, svc: nd.svc, start: w.now()}
	id := runtime.SimID()
	r.atts[id] = a
	w.Log("%s cron %s", n.name, key)
	w.Probe("cron-run")
	err := cb(ctx, key, cron, data)
	self()
	delete(r.atts, id)
	for _, c := range a.calls {
		r.leave(c)
	}
	if len(a.calls) != 1 {
		w.Fail("C16:cron-call", "cron %s is due on %s, its task is called %d times", key, nd.svc, len(a.calls))
		return err
	}
	c := a.calls[0]
	if c.cmd && err == nil {
		if c.bodies != 1 && !c.failed {
			w.Fail("C16:body-skipped", "cron command %s succeeds, its body ran %d times", key, c.bodies)
		}
		if c.posts != 1 {
			w.Fail("C16:post-save", "cron command %s succeeded, its PostSave ran %d times", key, c.posts)
		}
		if !c.over2() {
			w.Fail("C16:effect-lost", "cron command %s succeeded but nothing of it is stored", key)
		}
	}
	if !c.cmd && err != nil {
		w.Fail("C16:failure-invented", "cron task %s returned, the timer is told %v", key, err)
	}
	if c.cmd && c.failed && err == nil {
		w.Fail("C16:failure-ignored", "cron command %s failed, the timer is told it succeeded", key)
	}
	if err == nil {
		r.cronRun[key] = w.now()
	}
	return err
}

// over2: the count of a cron command arrived in the store since it began.
func (c *fxCall) over2() bool {
	r := fxRun0()
	return r.ctrs[c.ctr] > c.v0()
}

func (c *fxCall) v0() int64 {
	var v int64
	fmt.Sscanf(c.counted, "%d", &v)
	return v
}

func (r *fxRun) cronCall(key, cron string) *fxCall {
	w, n, _ := self()
	a := r.atts[runtime.SimID()]
	if a == nil || a.cron != key {
		w.Fail("C16:routing", "cron task %s is called without being due", key)
		select {}
	}
	for _, c := range fxCrons {
		if c.key == key && c.spec != cron {
			w.Fail("C16:cron-args", "cron task %s is called with schedule %q, registered is %q", key, cron, c.spec)
		}
	}
	c := &fxCall{att: a, key: key, node: n, inc: n.inc, sp: &fxSpec{}, svc: r.nodes[n.idx-1].svc}
	a.calls = append(a.calls, c)
	return c
}

func (r *fxRun) cronFn(key, cron string) {
	r.cronCall(key, cron)
	r.w.Seam("cron")
}

func (r *fxRun) cronCmd(key, cron string) *fxCall {
	c := r.cronCall(key, cron)
	c.cmd, c.ctr = true, "cron-"+key
	c.counted = fmt.Sprint(r.ctrs[c.ctr])
	r.enter(c)
	return c
}

// ---- store

func (r *fxRun) onCommit(tx *simdb.Tx, chs []simdb.Change) {
	w := r.w
	for _, c := range chs {
		switch c.Table {
		case "fx":
			if c.After == nil {
				w.Fail("C16:effect-removed", "effect %v disappears", c.Before["id"])
				continue
			}
			id := c.After["id"].(string)
			if _, ok := r.rows[id]; ok {
				w.Fail("C16:effect-twice", "effect %s is written twice", id)
			}
			r.rows[id] = w.now()
			r.progress()
			w.Log("effect %s", id)
			w.Probe("effect")
			r.checkCause(id)
		case "ctr":
			var b int64
			if c.Before != nil {
				b = c.Before["v"].(int64)
			}
			a := c.After["v"].(int64)
			id := c.After["id"].(string)
			w.Log("count %s %d -> %d", id, b, a)
			if a != b+1 && !r.leaseOver() {
				w.Fail("C16:lost-update", "counter %s goes from %d to %d: two commands that lock it overlapped", id, b, a)
			}
			r.ctrs[id] = a
		case "ddd_eventbus_service":
			if c.After != nil {
				r.svcRow[c.After["name"].(string)] = true
				r.progress()
			}
		}
	}
}

// leaseOver: some lock may have run out under its command.
func (r *fxRun) leaseOver() bool {
	if r.lateCmd {
		return true
	}
	rows := make([]string, 0, len(r.cmds))
	for k := range r.cmds {
		rows = append(rows, k)
	}
	sort.Strings(rows)
	for _, k := range rows {
		for _, c := range r.cmds[k] {
			if c.node.alive && c.node.inc == c.inc && c.late(r) {
				return true
			}
		}
	}
	return false
}

func (c *fxCall) late(r *fxRun) bool {
	return c.ctr != "" && r.w.now()-c.began > r.ttl-time.Second
}

// checkCause: the effect of a handler needs its event, raised and, for
// transactional events, committed.
func (r *fxRun) checkCause(id string) {
	p := strings.Split(id, ".")
	if len(p) != 3 {
		return
	}
	e := r.ev[p[0]]
	if e == nil || len(e.ids) == 0 {
		r.w.Fail("C16:effect-without-cause", "effect %s is stored but its event was never raised", id)
		return
	}
	if _, ok := r.rows[e.parent]; !ok && e.st == ddd.SendTypeTransaction {
		r.w.Fail("C16:uncommitted-cause", "effect %s is stored but the command that raised its event (%s) is not committed", id, e.parent)
	}
}

// missing names an effect that must still come.
func (r *fxRun) missing() string {
	for _, c := range r.roots {
		if _, ok := r.rows[c.id]; !ok {
			continue
		}
		for _, e := range c.evs {
			if s := r.missingOf(e); s != "" {
				return s
			}
		}
	}
	return ""
}

func (r *fxRun) missingOf(e *fxEv) string {
	if e.typ == "fx_txw" { // rolled back when the bus has to ask
		return ""
	}
	for _, svc := range r.svcs {
		for i, k := range fxKinds(e.typ) {
			if fkWrongT(k) {
				break
			}
			s := e.spec[svc][i]
			if (fkIsFn(k) && !s.run) || s.brk {
				if !s.ok {
					return fmt.Sprintf("handler %d of event %s (%s, %s) raised by %s has not succeeded on %s", i, e.key, e.typ, e.st, e.parent, svc)
				}
				continue
			}
			if _, ok := r.rows[rowOf(e.key, i, svc)]; !ok {
				return fmt.Sprintf("event %s (%s, %s) raised by %s has no effect of handler %d on %s", e.key, e.typ, e.st, e.parent, i, svc)
			}
			for _, ch := range s.child {
				if m := r.missingOf(ch); m != "" {
					return m
				}
			}
		}
	}
	return ""
}

func (r *fxRun) cronMissing() string {
	since := time.Duration(0)
	if r.w.faultsOn {
		since = time.Duration(r.w.faultEnd - r.w.start)
	}
	for _, c := range r.crons {
		if t, ok := r.cronRun[c.key]; !ok || t < since {
			return fmt.Sprintf("cron task %s (%s) of %s does not run", c.key, c.spec, c.svc)
		}
	}
	return ""
}

func (r *fxRun) idle() bool {
	for _, nd := range r.nodes {
		if !nd.n.alive || !nd.ready {
			return false
		}
	}
	if r.idleT != r.nodes[0].n.inc {
		return false
	}
	for _, c := range r.roots {
		if r.running(c.id) {
			return false
		}
	}
	return true
}

func (r *fxRun) patience() time.Duration {
	q := 60*time.Second + r.txDue + r.ttl
	for _, k := range r.w.fault.kinds {
		if k == "stall" {
			q += 150 * time.Second
			break
		}
	}
	return q
}

func (r *fxRun) done() bool {
	w := r.w
	since := r.lastProg
	if w.faultsOn {
		since = max(since, time.Duration(w.faultEnd-w.start))
	}
	if w.now()-since > r.patience() {
		r.stuck = true
		return true
	}
	if w.faultsActive() || !r.idle() || r.missing() != "" || r.cronMissing() != "" {
		r.doneT = 0
		return false
	}
	if r.doneT == 0 {
		r.doneT = w.now() + 1
		w.At(2*time.Second+2, func() {})
	}
	return w.now() >= r.doneT+2*time.Second
}

func fxFinal(w *World) {
	r := w.extra.(*fxRun)
	if w.truncated {
		w.Probe("truncated")
		w.Log("truncated: missing=%q cron=%q idle=%v", r.missing(), r.cronMissing(), r.idle())
	}
	if w.why != "time" && !r.stuck {
		return
	}
	if !r.idle() {
		var sb strings.Builder
		for _, nd := range r.nodes {
			fmt.Fprintf(&sb, " %s alive=%v ready=%v", nd.n.name, nd.n.alive, nd.ready)
		}
		w.Fail("C16:stuck", "the system never becomes idle after faults stopped:%s", sb.String())
		return
	}
	if s := r.missing(); s != "" {
		w.Fail("C16:not-handled", "%s", s)
	}
	if s := r.cronMissing(); s != "" {
		w.Fail("C16:cron-missing", "%s", s)
	}
}
