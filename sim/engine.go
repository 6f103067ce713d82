package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	ddd "github.com/bytedance/dddfirework"
	exec "github.com/bytedance/dddfirework/executor/mysql"
	"github.com/go-logr/logr"
	"gorm.io/gorm"

	"vsim/simdb"
)

// ---- shadow state of one command

type sh struct {
	kind     int
	obj      ddd.IEntity
	parent   *sh
	kids     []*sh
	base     map[string]any  // row when loaded; nil: not stored before
	cols     map[string]bool // columns changed by some save
	saved    map[string]any  // row this command has written so far
	inRoots  bool
	detached bool
	dead     bool
	trans    bool // never stored and taken out again
	blind    bool // removed by id only
	id0      string
	hooks    map[string]int
	epoch    map[string]int // the save in which the hook ran last, +1
	home     string         // the collection of a note at the last save
	dirty    bool           // changed or moved since the last save
}

func (s *sh) alive() bool {
	for x := s; ; x = x.parent {
		if x.dead || x.detached {
			return false
		}
		if x.parent == nil {
			return x.inRoots
		}
	}
}

func (s *sh) explicit() bool {
	if s.parent == nil {
		return !s.inRoots
	}
	return s.detached
}

func (s *sh) row() map[string]any {
	if s.kind == kBox {
		return map[string]any{}
	}
	p := ""
	if s.parent != nil {
		p = s.parent.obj.GetID()
	}
	return engRow(s.kind, s.obj.(iFld).fld(), p)
}

// changed reports whether something below (or at) s is not yet saved.
func (s *sh) changed() bool {
	if s.saved == nil || s.detached || sameRow(s.row(), s.saved) != "" {
		return true
	}
	for _, k := range s.kids {
		if k.changed() {
			return true
		}
	}
	return false
}

type raised struct {
	id   string
	st   ddd.SendType
	own  *sh
	evt  *ddd.DomainEvent
	body string
}

type engCmd struct {
	n     int
	id    uint64
	kind  int // 0 Run(MainFunc) 1 ICommandMain 2 ICommand 3 Stage 4 Create 5 Delete
	prog  []uint32
	pos   int
	bulk  int // how many entities a bulk operation touches
	nops  int
	keys  []string
	pause time.Duration

	inner   *engCmd // a command that the main function runs
	innerAt int     // before this operation
	twin    bool    // on the other engine of the process
	pctx    context.Context

	recursive, dry, notx bool
	optPost              int // WithPostSave options
	failAt               int // -1: no planned failure
	failHow              int
	failBuild            bool // an ICommand fails in its Build
	hookErr              int  // the n-th hook call fails; 0: none
	hookPanic            bool
	hookEvt              int // permille of hooks that raise events
	hookMod              int
	convErr              bool       // a converter fails
	convOp               ddd.OpType // for this operation
	convKind             int        // and this kind of entity
	convAt               int        // this often from now
	modelErr             int        // the n-th conversion of a row fails; 0: none
	persistErr, idErr    bool
	useSave              bool

	// run state
	eng      *engNode
	node     *Node
	inc      int
	live     bool
	returned bool
	ok, brk  bool
	err      error
	panicked bool
	planned  string // planned failure that was reached
	mustFail string // an operation was performed that has to make the command fail
	hit0     int
	hit      bool
	began    bool
	bodyRun  int
	bodyDone bool
	bodyEnd  bool
	inBody   bool
	repo     *ddd.Repository
	cont     *ddd.RootContainer
	builder  *ddd.DomainBuilder
	agent    *engCommand
	v0       int
	all      []*sh
	roots    []*sh
	byObj    map[ddd.IEntity]*sh
	seen     map[string]bool
	fuzzy    string
	evs      []*raised
	midSave  int
	hookN    int
	commits  int
	commitAt int
	commHit  bool
	effectOK bool
	stmts    int
	endedTx  bool
	locks    []*engLk
	out      string
	posts    map[string]int
	res      *ddd.Result
	wantDup  bool
	inSave   bool
	final    bool

	// bus calls
	disp, tbegin []*ddd.DomainEvent
	nBegin       int
	beginOK      bool
	busCommit    int
	busRollback  int
	dispAck      bool // Dispatch returned success
	busErr       bool
	busFail      string // the bus refuses this call

	cancel    time.Duration // the caller cancels the command's context after this; <0 before the call
	ctx       context.Context
	dispFirst bool
}

func (c *engCmd) pick(n int) int {
	if n <= 1 {
		return 0
	}
	v := uint32(0)
	if c.pos < len(c.prog) {
		v = c.prog[c.pos]
	}
	c.pos++
	return int(v) % n
}

func (c *engCmd) p(permille int) bool { return c.pick(1000) >= 1000-permille }

func (c *engCmd) alive() bool { return c.live && c.node.alive && c.node.inc == c.inc }

type engLk struct {
	name   string
	key    string
	cmd    *engCmd
	node   *Node
	inc    int
	held   bool
	unlock int
	got    bool
}

type engNode struct {
	twin    *engNode
	n       *Node
	db      *gorm.DB
	eng     *ddd.Engine
	ready   bool
	queues  [][]*engCmd
	next    []int
	rec     bool
	nPost   int
	bus     int // 0 transactional bus, 1 plain bus, 2 none
	pers    bool
	idgen   bool
	nots    bool
	part    []ddd.Option
	noBusEv bool // events are raised although there is no bus
	late    int  // 0 locker, executor and so on by position; 1 as options of the engine; 2 as options of every command
}

type engRun struct {
	w      *World
	nodes  []*engNode
	cmds   []*engCmd
	byID   map[uint64]*engCmd
	state  map[string]map[string]map[string]any // committed rows
	vers   int
	rowVer map[string]int
	held   map[string]*engLk
	try    bool
	lease  time.Duration
	keyset int
	big    string // the root with many items
	newN   int
	ids    []string // root ids a command may look for
	waits  map[*engCmd]*engLk
	doneT  time.Duration
	noEv   bool
}

func engScenario() *Scenario {
	return &Scenario{Name: "engine", Setup: engSetup, Final: engFinal, Limit: 20 * time.Minute, Steps: 60000,
		Real: []string{"dddfirework engine, stage, snapshots, commands, events (engine.go, snapshot.go, command.go, event.go, domain.go)", "executor/mysql"},
		Stub: []string{"ILock (lock server with waits, lost replies, leases of crashed owners)", "IEventBus/ITransactionEventBus (recording bus with lost calls and replies)", "business entities, commands and save hooks (generated programs)"},
		Assume: []string{"converters copy the values of the entity into the model",
			"the reference model covers roots, lists, lists below lists, single and map-valued children; entity objects are not reused by later commands"},
	}
}

func er() *engRun { w, _, _ := self(); return w.extra.(*engRun) }

func (r *engRun) cur() *engCmd { _, _, id := self(); return r.byID[id] }

func engConvErr(entity ddd.IEntity, op ddd.OpType) error {
	if curW == nil {
		return nil
	}
	r, ok := curW.extra.(*engRun)
	if !ok {
		return nil
	}
	if v := reflect.ValueOf(entity); !v.IsValid() || v.Kind() == reflect.Pointer && v.IsNil() {
		r.w.Fail("C02:effect", "a converter is asked to %v the entity %v, which nobody gave to the engine", op, entity)
		return errBiz
	}
	if c := r.cur(); c != nil && c.convErr && op == c.convOp && fmt.Sprintf("%T", entity) == fmt.Sprintf("%T", []any{&ERoot{}, &EItem{}, &ESub{}, &ENote{}, &EMark{}}[c.convKind]) {
		if c.convAt--; c.convAt == 0 {
			c.planned = "converter"
			r.w.Probe("converter-fails")
			return errBiz
		}
	}
	return nil
}

func engModelErr(entity ddd.IEntity) error {
	if curW == nil {
		return nil
	}
	r, ok := curW.extra.(*engRun)
	if !ok {
		return nil
	}
	if c := r.cur(); c != nil && c.modelErr > 0 {
		if c.modelErr--; c.modelErr == 0 {
			c.planned = "model"
			r.w.Probe("model-fails")
			return errBiz
		}
	}
	return nil
}

func engHook(e ddd.IEntity, which string) error {
	r := er()
	c := r.cur()
	s := c.byObj[e]
	c.hookN++
	if s == nil {
		return nil
	}
	if s.hooks == nil {
		s.hooks = map[string]int{}
	}
	s.hooks[which]++
	if s.epoch == nil {
		s.epoch = map[string]int{}
	}
	if s.epoch[which] == c.midSave+1 {
		r.w.Fail("C02:hook", "the save hook %s of %s/%s runs twice in one save of command %d", which, engTables[s.kind], s.obj.GetID(), c.n)
	}
	s.epoch[which] = c.midSave + 1
	if (which == "bu" || which == "au") && !s.dirty {
		r.w.Fail("C02:hook", "the save hook %s of %s/%s runs in a save of command %d which did not change it since the last one", which, engTables[s.kind], s.obj.GetID(), c.n)
	}
	if (which == "bc" || which == "ac") && s.saved != nil {
		r.w.Fail("C02:hook", "the save hook %s of %s/%s runs although command %d did not create it", which, engTables[s.kind], s.obj.GetID(), c.n)
	}
	if tx := r.serverTx(c); tx != nil && !c.dry && (which == "ac" || which == "ad") {
		id := s.obj.GetID()
		if r.rowVer[engTables[s.kind]+"/"+id] > c.v0 {
			// another command has stored or removed the row meanwhile
		} else if tx.Sees(engTables[s.kind], id) != (which == "ac") {
			r.w.Fail("C02:hook", "the save hook %s of %s/%s runs before the row is saved (command %d)", which, engTables[s.kind], id, c.n)
		}
	}
	if c.hookErr != 0 && c.hookN == c.hookErr {
		c.planned = "hook"
		if c.hookPanic {
			c.panicked = true
			panic("business panic")
		}
		return errBiz
	}
	h := splitmix(uint64(c.n)*1000 + uint64(c.hookN))
	if (which == "bc" || which == "bu") && int(h%1000) < c.hookMod {
		s.obj.(iFld).fld().V += 1000
	}
	if int(h>>20%1000) < c.hookEvt {
		r.raise(c, s, int(h>>40%3))
	}
	return nil
}

func engSetup(w *World) {
	r := &engRun{w: w, rowVer: map[string]int{}, byID: map[uint64]*engCmd{}, state: map[string]map[string]map[string]any{}, held: map[string]*engLk{}, waits: map[*engCmd]*engLk{}}
	w.extra = r
	for _, m := range []any{&RootPO{}, &ItemPO{}, &SubPO{}, &NotePO{}, &MarkPO{}, &EvPO{}} {
		createTable(w.db, m)
	}
	for _, t := range engTables {
		r.state[t] = map[string]map[string]any{}
	}
	if engRefused != nil {
		w.Fail(curProp+":registration-refused", "registering the entities panics: %v", engRefused)
		return
	}
	W, F := w.W, w.F
	// what is stored at the start
	ins := func(q string, a ...any) {
		tx := w.db.Begin(0)
		if _, err := tx.Exec(q, a); err != nil {
			panic(err)
		}
		tx.Commit()
	}
	w.db.OnCommit = r.onCommit
	w.onStmt = r.onStmt
	w.onFault = r.onFault
	at := time.Date(2024, 5, 6, 7, 8, 9, 0, time.UTC)
	nr := W.R(1, 4)
	for i := 0; i < nr; i++ {
		id := fmt.Sprintf("r%d", i)
		r.ids = append(r.ids, id)
		ins("INSERT INTO `eng_root` (`id`,`v`,`name`,`flag`,`rate`,`opt`,`m_a`,`m_b`,`attr`,`tags`,`at`) VALUES (?,?,?,?,?,?,?,?,?,?,?)", id, int64(i), "root", int64(i%2), 1.5, int64(7), int64(1), "mb", `{"A":"x","B":2}`, `["t"]`, at)
		ni := W.N(4)
		if W.P(40) {
			r.big, ni = id, []int{50, 120, 260}[W.N(3)]
		}
		for j := ni; j > 0; j-- {
			it := fmt.Sprintf("%s-i%d", id, j)
			ins("INSERT INTO `eng_item` (`id`,`root_id`,`v`,`name`,`flag`,`rate`,`opt`,`m_a`,`m_b`,`attr`) VALUES (?,?,?,?,?,?,?,?,?,?)", it, id, int64(j), "item", int64(0), 0.0, nil, int64(0), "", `{"A":"y","B":3}`)
			for k := W.N(3); k > 0; k-- {
				ins("INSERT INTO `eng_sub` (`id`,`item_id`,`v`,`name`) VALUES (?,?,?,?)", fmt.Sprintf("%s-s%d", it, k), it, int64(k), "sub")
			}
		}
		if W.P(500) {
			ins("INSERT INTO `eng_note` (`id`,`root_id`,`slot`,`v`,`name`) VALUES (?,?,?,?,?)", id+"-x", id, "x", int64(5), "extra")
		}
		for k := W.N(3); k > 0; k-- {
			ins("INSERT INTO `eng_note` (`id`,`root_id`,`slot`,`v`,`name`) VALUES (?,?,?,?,?)", fmt.Sprintf("%s-m%d", id, k), id, fmt.Sprintf("m%d", k), int64(k), "note")
		}
	}
	for i := 0; i < nr; i++ {
		for k := W.N(4); k > 0; k-- {
			id := fmt.Sprintf("r%d", i)
			ins("INSERT INTO `eng_mark` (`id`,`zone`,`root_id`,`v`,`name`) VALUES (?,?,?,?,?)", fmt.Sprintf("%s-k%d", id, k), []string{"z", "y"}[k%2], id, int64(k), "mark")
		}
	}
	r.ids = append(r.ids, "none")
	r.try = W.P(400)
	r.keyset = W.N(len(engKeys))
	r.lease = time.Duration(W.R(1, 8)) * time.Second

	nn := W.R(1, 3)
	for i := 0; i < nn; i++ {
		en := &engNode{rec: W.P(400), nPost: W.N(5), bus: []int{0, 0, 0, 1, 1, 2}[W.N(6)], pers: W.P(300), idgen: W.P(500), nots: W.P(60)}
		if W.P(300) {
			en.late = W.R(1, 2)
		}
		if curProp != "C04" {
			en.noBusEv = W.P(300)
		}
		if curProp == "C04" {
			if en.noBusEv = W.P(500); !en.noBusEv {
				en.bus %= 2
			}
		}
		if curProp == "C01" || curProp == "C03" || curProp == "C15" {
			en.nots = false
		}
		en.n = w.addNode(fmt.Sprintf("n%d", i+1), func(n *Node) { r.boot(en, n) })
		clients := W.R(1, 3)
		if curProp == "C02" && W.P(500) {
			clients = 1
		}
		for j := 0; j < clients; j++ {
			en.queues = append(en.queues, nil)
			en.next = append(en.next, 0)
			for k := W.R(1, 3); k > 0; k-- {
				c := r.genCmd(W, en)
				en.queues[j] = append(en.queues[j], c)
				if c.kind <= 3 && c.cancel == 0 && W.P(60) {
					in := r.genCmd(W, en)
					in.keys, in.wantDup, in.cancel = nil, false, 0
					c.inner, c.innerAt = in, W.N(c.nops+1)
					if curProp == "C02" && !en.nots && en.late == 0 && W.P(400) {
						in.twin, in.notx = true, true
					}
				}
			}
		}
		r.nodes = append(r.nodes, en)
	}

	if F.N(10) >= 4 {
		w.faultsOn = true
		w.fault.on = true
		w.fault.rate = []int{5, 15, 40}[F.N(3)]
		w.fault.crashMax = 3
		for _, k := range []string{"err-before", "err-after", "deadlock", "lock-timeout", "sql-error", "stall", "crash-before", "crash-after", "partition", "slow"} {
			if F.N(2) == 1 {
				w.fault.kinds = append(w.fault.kinds, k)
			}
		}
		w.faultEnd = w.start + int64(time.Duration(F.R(1, 30))*time.Second)
		w.drawFocus(22)
	}
	w.onCrash = func(n *Node, inc int) {
		w.At(r.lease, func() {
			for _, l := range r.held {
				if l.node == n && l.inc == inc {
					r.release(l)
				}
			}
		})
	}
	for _, en := range r.nodes {
		w.At(0, func() { en.n.Start() })
	}
	w.done = r.done
}

var engKeys = [][]string{
	{"k0", "k1", "k2", "k3"}, {"k0", "k1", "k2", "k3"}, {"k", "k1", "k10", "K1"}, {"a:1", "a:1:", "", "ü"},
	{strings.Repeat("k", 90) + "1", strings.Repeat("k", 90) + "2", "k k", "k%20k"},
}

func (r *engRun) genCmd(W *Stream, en *engNode) *engCmd {
	c := &engCmd{n: len(r.cmds) + 1, failAt: -1, byObj: map[ddd.IEntity]*sh{}, seen: map[string]bool{}, posts: map[string]int{}}
	c.kind = W.N(6)
	if c.kind >= 4 && !W.P(400) {
		c.kind = W.N(4)
	}
	c.nops = W.R(1, 8)
	if W.P(150) {
		c.nops = W.R(8, 16)
	}
	n := c.nops * 6
	for i := 0; i < n; i++ {
		c.prog = append(c.prog, uint32(W.N(30030)))
	}
	c.pause = time.Duration(W.N(5)) * 100 * time.Millisecond
	if r.big != "" && W.P(150) || W.P(20) {
		c.bulk = []int{20, 51, 110, 260}[W.N(4)]
		c.prog[0], c.prog[2], c.prog[3] = 0, 2, 26 // load something with its items first
		c.nops = max(c.nops, 3)
	}
	c.recursive = en.rec
	if W.P(200) {
		c.recursive = true
	}
	c.dry = W.P(50)
	c.notx = en.nots
	if W.P(400) {
		c.optPost = W.R(1, 2)
	}
	if W.P(map[bool]int{true: 150, false: 40}[curProp == "C04"]) {
		c.busFail = []string{"dispatch", "begin"}[W.R(0, 1)]
	}
	if c.kind >= 4 && en.late == 2 {
		c.kind = W.N(4) // these take no options
	}
	if c.kind >= 4 {
		c.optPost, c.recursive, c.dry = 0, en.rec, false
	}
	if W.P(250) {
		c.failAt = W.N(c.nops + 1)
		c.failHow = W.N(3)
		c.failBuild = W.N(2) == 1
	}
	if W.P(120) {
		c.hookErr = W.R(1, 6)
		c.hookPanic = W.P(300)
	}
	if W.P(400) {
		c.hookEvt = W.R(100, 700)
	}
	if W.P(400) {
		c.hookMod = W.R(100, 700)
	}
	if W.P(60) {
		c.convErr = true
		c.convOp = []ddd.OpType{ddd.OpInsert, ddd.OpUpdate, ddd.OpDelete, ddd.OpQuery}[W.N(4)]
		c.convKind = W.N(5)
		c.convAt = W.R(1, 3)
	}
	if W.P(25) {
		c.modelErr = W.R(1, 6)
	}
	if W.P(40) {
		c.idErr = true
	}
	if W.P(40) {
		c.persistErr = true
	}
	c.useSave = W.P(400)
	if W.P(100) {
		switch W.N(4) {
		case 0:
			c.cancel = -1
		case 1:
			c.cancel = time.Duration(W.R(1, 3000)) * time.Microsecond
		case 2:
			c.cancel = time.Duration(W.R(1, 300)) * time.Millisecond
		case 3:
			c.cancel = time.Duration(W.R(1, 5000)) * time.Millisecond
		}
	}
	lk := 350
	if curProp == "C03" {
		lk = 900
	}
	if W.P(lk) && c.kind >= 1 && c.kind <= 3 {
		for k := W.R(1, 3); k > 0; k-- {
			c.keys = append(c.keys, engKeys[r.keyset][W.N(4)])
		}
		if W.P(850) { // distinct keys, in any order
			seen := map[string]bool{}
			var u []string
			for _, k := range c.keys {
				if !seen[k] {
					u = append(u, k)
				}
				seen[k] = true
			}
			c.keys = u
		}
	}
	seen := map[string]bool{}
	for _, k := range c.keys {
		if seen[k] {
			c.wantDup = true
		}
		seen[k] = true
	}
	r.cmds = append(r.cmds, c)
	return c
}

type engIDGen struct{ r *engRun }

func (g *engIDGen) NewID() (string, error) {
	c := g.r.cur()
	if c != nil && c.idErr {
		c.planned = "id"
		return "", errBiz
	}
	g.r.newN++
	return fmt.Sprintf("g%d", g.r.newN), nil
}

func (r *engRun) boot(en *engNode, n *Node) {
	w := r.w
	en.db = openGorm(w)
	self()
	opts := []ddd.Option{ddd.WithLogger(logr.Discard()), ddd.RecursiveDeleteOption(en.rec)}
	var part []ddd.Option
	switch en.bus {
	case 0:
		part = append(part, ddd.WithEventBus(&engTxBus{engBus{r}}))
	case 1:
		part = append(part, ddd.WithEventBus(&engBus{r}))
	}
	if en.idgen {
		part = append(part, ddd.WithIDGenerator(&engIDGen{r}))
	}
	if en.late > 0 {
		part = append(part, ddd.WithLock(&engLock{r}), ddd.WithExecutor(exec.NewExecutor(en.db)))
		w.Probe("options-override")
	}
	en.part = nil
	if en.late == 2 {
		en.part = part
	} else {
		opts = append(opts, part...)
	}
	if en.nots {
		opts = append(opts, ddd.WithoutTransaction)
	}
	if en.pers {
		opts = append(opts, ddd.WithEventPersist(func(ev *ddd.DomainEvent) (ddd.IModel, error) {
			c := r.cur()
			if c.persistErr {
				c.planned = "persist"
				return nil, errBiz
			}
			return &EvPO{ID: ev.ID, Type: string(ev.Type), Body: string(ev.Payload)}, nil
		}))
	}
	for i := 0; i < en.nPost; i++ {
		i := i
		opts = append(opts, ddd.WithPostSave(func(ctx context.Context, res *ddd.Result) {
			r.post(r.cur(), r.cur(), fmt.Sprintf("engine%d", i), res)
		}))
	}
	if en.late > 0 {
		en.eng = ddd.NewEngine(&engWrongLock{r}, exec.NewExecutor(nil), opts...)
	} else {
		en.eng = ddd.NewEngine(&engLock{r}, exec.NewExecutor(en.db), opts...)
	}
	// another engine with an executor of its own, which uses no transactions
	twin := *en
	twin.nots = true
	twin.eng = ddd.NewEngine(&engLock{r}, exec.NewExecutor(en.db), append(opts[:len(opts):len(opts)], ddd.WithoutTransaction)...)
	en.twin = &twin
	en.ready = true
	w.Log("%s ready", n.name)
	for q := range en.queues {
		q := q
		n.Go(0, func() {
			for en.next[q] < len(en.queues[q]) {
				c := en.queues[q][en.next[q]]
				en.next[q]++
				w.Sleep(c.pause)
				id := w.newCmd()
				c.id = id
				r.byID[id] = c
				withCmd(id, func() { r.runCmd(en, c) })
			}
		})
	}
}

// ---- the lock server

type engLock struct{ r *engRun }

// engWrongLock is given to an engine whose commands are told another one.
type engWrongLock struct{ r *engRun }

func (l *engWrongLock) Lock(ctx context.Context, key string) (interface{}, error) {
	c := l.r.cur()
	l.r.w.Fail("C03:wrong-locker", "command %d takes its lock %s from a locker that was replaced", c.n, key)
	return nil, errors.New("wrong locker")
}

func (l *engWrongLock) UnLock(ctx context.Context, keyLock interface{}) error {
	return errors.New("wrong locker")
}

func (r *engRun) release(l *engLk) {
	if l.held {
		l.held = false
		delete(r.held, l.name)
		r.w.db.Version++
		r.w.kick()
	}
}

func (l *engLock) Lock(ctx context.Context, key string) (interface{}, error) {
	r := l.r
	w, n, _ := self()
	c := r.cur()
	lk := &engLk{name: key, cmd: c, node: n, inc: n.inc}
	if c.inBody {
		w.Fail("C03:lock-in-body", "command %d asks for lock %s while its main function runs", c.n, key)
	}
	o := &op{kind: "lock", desc: "lock " + key, redis: true, fail: func(o *op, kind string) error {
		delete(r.waits, c)
		switch kind {
		case "lock-wait-timeout":
			w.Probe("lock-timeout")
			return ddd.ErrEntityLocked
		case "err-after":
			if lk.held {
				w.At(r.lease, func() { r.release(lk) })
			}
			lk.got = false
		}
		return errors.New("lock server unreachable")
	}}
	o.exec = func(o *op) (any, error) {
		if h := r.held[key]; h != nil {
			if h.cmd == c {
				w.Fail("C03:self-deadlock", "command %d locks %s twice", c.n, key)
				return nil, ddd.ErrEntityLocked
			}
			if r.try {
				w.Probe("lock-denied")
				return nil, ddd.ErrEntityLocked
			}
			r.waits[c] = h
			w.Probe("lock-blocked")
			for x, i := h.cmd, 0; x != nil && i < 20; i++ {
				nx := r.waits[x]
				if nx == nil || !nx.held {
					break
				}
				if nx.cmd == c {
					w.Fail("C03:deadlock", "commands %d and %d wait for each other's locks", c.n, h.cmd.n)
					break
				}
				x = nx.cmd
			}
			return nil, simdb.ErrWait
		}
		delete(r.waits, c)
		lk.held, lk.got = true, true
		r.held[key] = lk
		return lk, nil
	}
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	v := w.park(ctx, o)
	delete(r.waits, c)
	if v.err != nil {
		if lk.held { // the caller went away while the reply was under way
			w.At(r.lease, func() { r.release(lk) })
			lk.got = false
		}
		return nil, v.err
	}
	c.locks = append(c.locks, lk)
	return lk, nil
}

func (l *engLock) UnLock(ctx context.Context, keyLock interface{}) error {
	r := l.r
	w, n, _ := self()
	c := r.cur()
	lk, ok := keyLock.(*engLk)
	if !ok || lk.cmd != c {
		w.Fail("C03:foreign-unlock", "command %d unlocks %v which it does not hold", c.n, keyLock)
		return nil
	}
	lk.unlock++
	if lk.unlock > 1 {
		w.Fail("C03:double-unlock", "command %d unlocks %s twice", c.n, lk.name)
	}
	if c.inBody {
		w.Fail("C03:unlock-in-body", "command %d releases %s while its main function runs", c.n, lk.name)
	}
	if n.hit == c.hit0 && c.ctx.Err() == nil && r.openTx(c) {
		w.Fail("C03:unlock-before-end", "command %d releases %s while its transaction is still open", c.n, lk.name)
	}
	if err := ctx.Err(); err != nil {
		// a lock server's client refuses the call: the lock stays until its lease is over
		w.At(r.lease, func() { r.release(lk) })
		w.Fail("C03:lock-leak", "command %d was cancelled and does not get %s released: %v", c.n, lk.name, err)
		return err
	}
	v := w.park(ctx, &op{kind: "unlock", desc: "unlock " + lk.name, redis: true,
		exec: func(*op) (any, error) { r.release(lk); return nil, nil },
		fail: func(o *op, kind string) error {
			if lk.held {
				w.At(r.lease, func() { r.release(lk) })
			}
			return errors.New("lock server unreachable")
		}})
	return v.err
}

func (r *engRun) openTx(c *engCmd) bool { return r.serverTx(c) != nil }

// serverTx is the open transaction of a command.
func (r *engRun) serverTx(c *engCmd) *simdb.Tx {
	for cn := range r.w.openTxs {
		if cn.tx != nil && !cn.tx.Done && tagCmd(cn.tx.Tag) == c.id && tagNode(cn.tx.Tag) == c.node.idx {
			return cn.tx
		}
	}
	return nil
}

// ---- the event bus

type engBus struct{ r *engRun }

func (b *engBus) RegisterEventHandler(cb ddd.DomainEventHandler) {}

func (b *engBus) call(ctx context.Context, kind string, evs []*ddd.DomainEvent, rec func(c *engCmd)) error {
	w, _, _ := self()
	c := b.r.cur()
	ids := []string{}
	for _, e := range evs {
		ids = append(ids, e.ID)
	}
	if kind == c.busFail {
		w.Log("the bus refuses %s of command %d", kind, c.n)
		w.Probe("bus-refused")
		c.mustFail, c.busErr = "bus", true
		return errors.New("bus refuses")
	}
	if err := ctx.Err(); err != nil {
		c.busErr = true
		if kind == "dispatch" || kind == "begin" {
			c.mustFail = "bus"
		}
		w.Probe("bus-cancelled")
		return err
	}
	v := w.park(nil, &op{kind: "bus", desc: "bus " + kind + " " + strings.Join(ids, ","), redis: true,
		exec: func(*op) (any, error) { rec(c); return nil, nil },
		fail: func(o *op, k string) error {
			c.busErr = true
			if kind == "dispatch" || kind == "begin" {
				c.mustFail = "bus"
			}
			return errors.New("bus unreachable")
		}})
	return v.err
}

func (b *engBus) Dispatch(ctx context.Context, evs ...*ddd.DomainEvent) error {
	w, _, _ := self()
	c := b.r.cur()
	b.r.beforeBus(c, "Dispatch", evs)
	w.Probe("bus-dispatch")
	err := b.call(ctx, "dispatch", evs, func(c *engCmd) { c.disp = append(c.disp, evs...) })
	if err == nil {
		c.dispAck = true
	}
	return err
}

type engTxBus struct{ engBus }
type engBusKey struct{}

func (b *engTxBus) RegisterEventTXChecker(cb ddd.DomainEventTXChecker) {}

func (b *engTxBus) DispatchBegin(ctx context.Context, evs ...*ddd.DomainEvent) (context.Context, error) {
	c := b.r.cur()
	c.nBegin++
	b.r.beforeBus(c, "DispatchBegin", evs)
	err := b.call(ctx, "begin", evs, func(c *engCmd) { c.tbegin = append(c.tbegin, evs...) })
	if err != nil {
		return nil, err
	}
	c.beginOK = true
	b.r.w.Probe("bus-begin")
	return context.WithValue(ctx, engBusKey{}, c), nil
}

func (b *engTxBus) Commit(ctx context.Context) error {
	w, _, _ := self()
	c := b.r.cur()
	if x, _ := ctx.Value(engBusKey{}).(*engCmd); x != c {
		w.Fail("C04:foreign-commit", "command %d commits a message transaction it did not begin", c.n)
		return nil
	}
	c.busCommit++
	w.Probe("bus-commit")
	if r := b.r; r.unstored(c) {
		w.Fail("C04:commit-before-db", "command %d commits its message transaction although its database transaction is not committed", c.n)
	}
	if b.r.openTx(c) {
		w.Fail("C04:commit-before-db", "command %d commits its message transaction before its database transaction", c.n)
	}
	if c.busCommit > 1 || c.busRollback > 0 {
		w.Fail("C04:commit-twice", "command %d ends its message transaction twice", c.n)
	}
	return b.call(ctx, "commit", nil, func(*engCmd) {})
}

func (b *engTxBus) Rollback(ctx context.Context) error {
	w, _, _ := self()
	c := b.r.cur()
	if x, _ := ctx.Value(engBusKey{}).(*engCmd); x != c {
		w.Fail("C04:foreign-rollback", "command %d rolls back a message transaction it did not begin", c.n)
		return nil
	}
	c.busRollback++
	w.Probe("bus-rollback")
	if c.commits > 0 {
		w.Fail("C04:rolled-back-committed", "command %d rolls its message transaction back although it is committed", c.n)
	}
	if c.busRollback > 1 || c.busCommit > 0 {
		w.Fail("C04:rollback-twice", "command %d ends its message transaction twice", c.n)
	}
	return b.call(ctx, "rollback", nil, func(*engCmd) {})
}

// unstored: the command, now complete, has changes that are not committed.
func (r *engRun) unstored(c *engCmd) bool {
	if c.commits > 0 || c.dry || c.notx || c.fuzzy != "" {
		return false
	}
	r.finalSettle(c)
	exp, _ := r.effect(c)
	return len(exp) > 0 && r.visible(exp, c.v0)
}

func (r *engRun) finalSettle(c *engCmd) {
	if !c.final {
		c.final = true
		r.settle(c)
	}
}

func (r *engRun) beforeBus(c *engCmd, what string, evs []*ddd.DomainEvent) {
	w := r.w
	if c.dry {
		w.Fail("C04:dry-run", "the dry run of command %d publishes events", c.n)
	}
	if !c.bodyDone || c.planned != "" || c.mustFail != "" {
		w.Fail("C04:published-by-failed", "command %d publishes events although it failed (%s %s)", c.n, c.planned, c.mustFail)
	}
	// every event as it was raised
	for _, e := range evs {
		var x *raised
		for _, y := range c.evs {
			if y.id == e.ID {
				x = y
			}
		}
		if x == nil {
			w.Fail("C04:foreign-event", "command %d publishes event %s which it did not raise", c.n, e.ID)
			return
		}
		if string(e.Payload) != x.body || e.SendType != x.st || string(e.Type) != "eng_evt" || e.Sender != fmt.Sprintf("c%d", c.n) {
			w.Fail("C04:content", "event %s is published with altered content", e.ID)
		}
	}
}

// ---- commands

type EngEvent struct {
	Key    string
	Sender string
}

func (e *EngEvent) GetType() ddd.EventType { return "eng_evt" }
func (e *EngEvent) GetSender() string      { return e.Sender }

type adder interface {
	AddEvent(evt ddd.IEvent, opts ...ddd.EventOpt)
}

func (r *engRun) raise(c *engCmd, s *sh, how int) {
	if c.eng.bus == 2 && !c.eng.noBusEv {
		return
	}
	st := []ddd.SendType{ddd.SendTypeNormal, ddd.SendTypeTransaction, ddd.SendTypeFIFO}[how]
	e := &EngEvent{Key: fmt.Sprintf("c%d-e%d", c.n, len(c.evs)), Sender: fmt.Sprintf("c%d", c.n)}
	s.obj.(adder).AddEvent(e, ddd.WithSendType(st))
	evs := s.obj.GetEvents()
	de := evs[len(evs)-1]
	body, _ := json.Marshal(e)
	c.evs = append(c.evs, &raised{id: de.ID, st: st, own: s, evt: de, body: string(body)})
	r.w.Probe("event-raised")
}

// post is a post-save callback owned by own, called while cur runs.
func (r *engRun) post(own, cur *engCmd, name string, res *ddd.Result) {
	w := r.w
	self()
	if own != cur {
		w.Fail("C15:foreign", "callback %s of command %d runs for command %d", name, own.n, cur.n)
		return
	}
	c := cur
	w.Probe("post-save")
	c.posts[name]++
	if c.posts[name] > 1 {
		w.Fail("C15:twice", "callback %s of command %d runs twice", name, c.n)
	}
	if res == nil || res.Error != nil {
		w.Fail("C15:failed", "callback %s of command %d runs although it failed", name, c.n)
		return
	}
	if c.planned != "" && c.planned != "break" || c.mustFail != "" {
		w.Fail("C15:failed", "callback %s of command %d runs although it failed (%s%s)", name, c.n, c.planned, c.mustFail)
	}
	if c.res != nil && c.res != res {
		w.Fail("C15:result", "callbacks of command %d get different results", c.n)
	}
	c.res = res
	if !res.Break && !c.notx {
		if r.openTx(c) || r.unstored(c) {
			w.Fail("C15:before-commit", "callback %s of command %d runs before its transaction is committed", name, c.n)
		}
	}
	want := any(nil)
	if c.out != "" {
		want = c.out
	}
	if !res.Break && res.Output != want {
		w.Fail("C15:output", "callback %s of command %d gets output %v instead of %v", name, c.n, res.Output, want)
	}
}

type engMain struct {
	r *engRun
	c *engCmd
}

func (m *engMain) Main(ctx context.Context, repo *ddd.Repository) error {
	return m.r.body(ctx, m.c, repo, nil)
}

type engMainInit struct{ engMain }

func (m *engMainInit) Init(ctx context.Context) ([]string, error) {
	m.r.w.Seam("init")
	return append([]string(nil), m.c.keys...), nil
}

type engMainPost struct{ engMainInit }

func (m *engMainPost) PostSave(ctx context.Context, res *ddd.Result) {
	m.r.post(m.c, m.r.cur(), "command", res)
}

type engCommand struct {
	ddd.Command
	r *engRun
	c *engCmd
}

func (m *engCommand) Init(ctx context.Context) ([]string, error) {
	m.c.agent = m
	m.r.w.Seam("init")
	return append([]string(nil), m.c.keys...), nil
}

func (m *engCommand) Build(ctx context.Context, b ddd.DomainBuilder) ([]ddd.IEntity, error) {
	m.c.builder = &b
	return m.r.build(ctx, m.c)
}

func (m *engCommand) Act(ctx context.Context, cont ddd.RootContainer, roots ...ddd.IEntity) error {
	return m.r.body(ctx, m.c, nil, &cont)
}

func (m *engCommand) PostSave(ctx context.Context, res *ddd.Result) {
	m.r.post(m.c, m.r.cur(), "command", res)
}

// nest runs the inner command of c, with the context that c's main function was given.
func (r *engRun) nest(ctx context.Context, c *engCmd) {
	in, en := c.inner, c.eng
	if in.twin {
		en = en.twin
	}
	id := r.w.newCmd()
	in.id, in.pctx = id, ctx
	r.byID[id] = in
	r.w.Probe("nested")
	withCmd(id, func() { r.runCmd(en, in) })
	if in.ok && in.commits > 0 {
		r.w.Probe("nested-committed")
	}
}

func (r *engRun) runCmd(en *engNode, c *engCmd) {
	w, n, _ := self()
	c.eng, c.node, c.inc, c.live = en, n, n.inc, true
	c.hit0 = n.hit
	c.v0 = r.vers
	w.Log("%s command %d kind %d starts keys=%v rec=%v dry=%v", n.name, c.n, c.kind, c.keys, c.recursive, c.dry)
	var res *ddd.Result
	func() {
		defer func() {
			if p := recover(); p != nil {
				if s, ok := p.(string); !ok || s != "business panic" {
					panic(p)
				}
				c.panicked = true
				res = ddd.ResultError(errBiz)
			}
		}()
		parent := context.Background()
		if c.pctx != nil {
			parent = c.pctx
		}
		ctx, cancel := context.WithCancel(parent)
		if c.ctx = ctx; c.cancel < 0 {
			cancel()
		} else if c.cancel > 0 {
			tm := time.AfterFunc(c.cancel, func() {
				self()
				w.Log("command %d is cancelled by its caller", c.n)
				w.Probe("cmd-cancelled")
				cancel()
			})
			defer tm.Stop()
		}
		opts := append([]ddd.Option(nil), en.part...)
		if c.recursive != en.rec {
			opts = append(opts, ddd.RecursiveDeleteOption(c.recursive))
		}
		if c.dry {
			opts = append(opts, ddd.WithDryRun)
		}
		for i := 0; i < c.optPost; i++ {
			name := fmt.Sprintf("option%d", i)
			opts = append(opts, ddd.WithPostSave(func(ctx context.Context, res *ddd.Result) { r.post(c, r.cur(), name, res) }))
		}
		mf := func(ctx context.Context, repo *ddd.Repository) error { return r.body(ctx, c, repo, nil) }
		switch c.kind {
		case 0:
			res = en.eng.Run(ctx, mf, opts...)
		case 1:
			m := engMain{r, c}
			if len(c.keys) == 0 && !c.useSave {
				res = en.eng.Run(ctx, &m, opts...)
			} else {
				res = en.eng.Run(ctx, &engMainPost{engMainInit{m}}, opts...)
			}
		case 2:
			if c.useSave && c.nops%3 == 0 {
				res = en.eng.NewStage().WithOption(opts...).RunCommand(ctx, &engCommand{r: r, c: c})
			} else if c.useSave {
				res = en.eng.RunCommand(ctx, &engCommand{r: r, c: c}, opts...)
			} else {
				res = en.eng.Run(ctx, &engCommand{r: r, c: c}, opts...)
			}
		case 3:
			st := en.eng.NewStage()
			if len(opts) > 0 {
				st = st.WithOption(opts...)
			}
			res = st.Lock(append([]string(nil), c.keys...)...).Main(mf).Save(ctx)
		case 4, 5:
			var roots []ddd.IEntity
			for i := 0; i < 1+c.nops%3; i++ {
				if c.kind == 4 {
					s := r.newRoot(c)
					s.inRoots = true
					roots = append(roots, s.obj)
				} else {
					id := r.ids[c.pick(len(r.ids))]
					if c.seen["0"+id] {
						continue
					}
					s := r.track(c, kRoot, &ERoot{BaseEntity: ddd.NewBase(id)}, nil)
					s.blind, s.id0 = true, id
					s.saved, s.base = map[string]any{}, map[string]any{}
					roots = append(roots, s.obj)
					if c.p(300) {
						r.raise(c, s, c.pick(3))
					}
				}
			}
			if len(roots) == 0 {
				c.fuzzy = "empty"
			}
			c.bodyRun, c.bodyDone = 1, true
			if c.kind == 4 {
				res = en.eng.Create(ctx, roots...)
			} else {
				res = en.eng.Delete(ctx, roots...)
			}
		}
	}()
	self()
	r.end(c, res)
}

func (r *engRun) end(c *engCmd, res *ddd.Result) {
	w := r.w
	c.live, c.returned = false, true
	c.hit = c.node.hit != c.hit0 || c.ctx.Err() != nil
	c.inBody = false
	if res == nil {
		w.Fail("C01:no-result", "command %d ended without a result", c.n)
		return
	}
	c.err, c.brk = res.Error, res.Break
	c.ok = res.Error == nil && !res.Break
	w.Log("%s command %d ends ok=%v brk=%v err=%v planned=%q must=%q fuzzy=%q", c.node.name, c.n, c.ok, c.brk, c.err, c.planned, c.mustFail, c.fuzzy)
	if c.ok {
		w.Probe("cmd-ok")
	} else {
		w.Probe("cmd-failed")
	}
	if r.openTx(c) && !c.hit {
		w.Fail("C01:open-transaction", "command %d returned but its transaction is still open", c.n)
	}

	// locks
	for _, l := range c.locks {
		if l.unlock == 0 {
			w.Fail("C03:lock-leak", "command %d ended without releasing %s", c.n, l.name)
		}
	}
	if c.wantDup && c.ok {
		w.Fail("C03:repeated-key", "command %d locked a key twice and reported success", c.n)
	}
	if c.ok && !c.wantDup && len(c.locks) < len(c.keys) {
		w.Fail("C03:body-without-lock", "command %d reported success with %d of its %d locks", c.n, len(c.locks), len(c.keys))
	}

	// outcome
	if c.bodyRun == 0 && c.ok {
		w.Fail("C01:not-run", "command %d reported success but its main function never ran", c.n)
	}
	want := ""
	switch {
	case c.planned == "break":
		if !c.brk || c.err != nil {
			want = "break"
		}
	case c.planned != "" || c.mustFail != "":
		if c.err == nil {
			want = "an error (" + c.planned + c.mustFail + ")"
		}
	}
	if want != "" {
		w.Fail("C01:failure-hidden", "command %d must report %s but reported ok=%v break=%v err=%v", c.n, want, c.ok, c.brk, c.err)
	}
	if c.brk && c.planned != "break" {
		w.Fail("C01:outcome", "command %d reported break", c.n)
	}
	if c.planned == "" && c.mustFail == "" && c.err != nil && !c.hit && !c.wantDup && c.fuzzy == "" && !r.excused(c) {
		w.Fail("C02:refused", "command %d failed without a reason: %v", c.n, c.err)
	}
	if c.ok {
		r.finalSettle(c)
	}
	exp, _ := r.effect(c)
	if c.ok && !c.dry && c.fuzzy == "" {
		if len(exp) > 0 && c.commits == 0 && !c.notx {
			// deletions of rows that are already gone leave no trace
			if r.visible(exp, c.v0) {
				w.Fail("C01:acked-not-committed", "command %d reported success but nothing of it is committed, expected %s", c.n, effStr(exp))
				w.Fail("C02:not-stored", "command %d reported success but nothing of it is committed, expected %s", c.n, effStr(exp))
			}
		}
	}
	if !c.ok && c.commits > 0 && !c.commHit && !c.notx {
		w.Fail("C01:failed-committed", "command %d reported err=%v break=%v but is committed", c.n, c.err, c.brk)
	}
	if c.dry && c.commits > 0 {
		w.Fail("C01:dry-run", "the dry run of command %d stored something", c.n)
	}
	if c.eng.bus == 2 && c.fuzzy == "" && c.ok && !c.dry {
		for _, x := range c.evs {
			if !x.own.transient() {
				w.Fail("C04:no-bus", "command %d succeeded although its event %s could not be published", c.n, x.id)
				break
			}
		}
	}
	r.checkEvents(c)
	r.checkPosts(c)
}

// excused: the database refused something for reasons outside the command.
func (r *engRun) excused(c *engCmd) bool {
	s := c.err.Error()
	return strings.Contains(s, "Deadlock") || strings.Contains(s, "Lock wait") || errors.Is(c.err, ddd.ErrEntityLocked) || strings.Contains(s, "locked") || strings.Contains(s, "no eventbus found") && c.eng.bus == 2
}

func (r *engRun) checkPosts(c *engCmd) {
	w := r.w
	if c.panicked {
		return
	}
	want := map[string]bool{}
	for i := 0; i < c.eng.nPost; i++ {
		want[fmt.Sprintf("engine%d", i)] = true
	}
	for i := 0; i < c.optPost; i++ {
		want[fmt.Sprintf("option%d", i)] = true
	}
	if c.kind == 2 || c.kind == 1 && (len(c.keys) > 0 || c.useSave) {
		want["command"] = true
	}
	if c.err != nil && len(c.posts) > 0 {
		w.Fail("C15:failed", "callbacks of the failed command %d run: %v", c.n, c.err)
	}
	if !c.ok {
		return
	}
	for k := range want {
		if c.posts[k] == 0 {
			w.Fail("C15:missing", "callback %s of command %d never ran", k, c.n)
		}
	}
	for k := range c.posts {
		if !want[k] {
			w.Fail("C15:foreign", "callback %s ran for command %d", k, c.n)
		}
	}
}

func (r *engRun) checkEvents(c *engCmd) {
	w := r.w
	if c.eng.bus == 2 || c.fuzzy != "" {
		return
	}
	all := append(append([]*ddd.DomainEvent{}, c.disp...), c.tbegin...)
	cnt := map[string]int{}
	for _, e := range all {
		cnt[e.ID]++
		if cnt[e.ID] > 1 {
			w.Fail("C04:twice", "command %d publishes event %s twice", c.n, e.ID)
		}
	}
	if !c.ok {
		early := c.panicked || c.brk || c.planned != "" || c.mustFail != "" && c.mustFail != "bus"
		if len(all) > 0 && early {
			w.Fail("C04:published-by-failed", "the failed command %d published %d event(s)", c.n, len(all))
		}
		if c.mustFail == "bus" && c.dispAck {
			// the bus refused the message transaction: nothing else may be out by then
			w.Fail("C04:published-by-failed", "command %d failed because the bus refused, but it had published %d event(s)", c.n, len(c.disp))
		}
		if c.beginOK {
			// a message transaction of a command that failed before its commit is rolled back
			if c.busCommit > 0 {
				w.Fail("C04:committed-by-failed", "the failed command %d committed its message transaction", c.n)
			}
			if c.busRollback == 0 && (early || c.busErr) && c.commits == 0 {
				w.Fail("C04:not-rolled-back", "the failed command %d did not roll back its message transaction", c.n)
			}
		}
		return
	}
	if c.dry {
		if len(all) > 0 {
			w.Fail("C04:dry-run", "the dry run of command %d published %d event(s)", c.n, len(all))
		}
		return
	}
	last := map[string]int{}
	for i, x := range c.evs {
		last[x.id] = i
		if cnt[x.id] == 0 && !x.own.transient() {
			w.Fail("C04:lost", "command %d succeeded but event %d (%s, %s) it raised was not published", c.n, i, x.id, x.st)
		}
	}
	for name, l := range map[string][]*ddd.DomainEvent{"Dispatch": c.disp, "DispatchBegin": c.tbegin} {
		for i := 1; i < len(l); i++ {
			if last[l[i].ID] < last[l[i-1].ID] {
				w.Fail("C04:order", "command %d publishes its events out of order (%s)", c.n, name)
			}
		}
	}
	tx := c.eng.bus == 0 && !c.notx
	if tx {
		for _, e := range c.disp {
			if e.SendType == ddd.SendTypeTransaction {
				w.Fail("C04:not-transactional", "command %d sends the transactional event %s as a normal one", c.n, e.ID)
			}
		}
		for _, e := range c.tbegin {
			if e.SendType != ddd.SendTypeTransaction {
				w.Fail("C04:not-transactional", "command %d sends the normal event %s as a transactional one", c.n, e.ID)
			}
		}
		if len(c.tbegin) > 0 && c.busCommit == 0 {
			w.Fail("C04:not-committed", "command %d succeeded without committing its message transaction", c.n)
		}
		if c.busRollback > 0 {
			w.Fail("C04:rolled-back", "command %d succeeded and rolled back its message transaction", c.n)
		}
	}
	if c.nBegin > 1 {
		w.Fail("C04:begin-twice", "command %d begins %d message transactions", c.n, c.nBegin)
	}
}

func (s *sh) transient() bool {
	for x := s; x != nil; x = x.parent {
		if x.trans {
			return true
		}
	}
	return false
}

// ---- what the command has to leave behind

type effect struct {
	table, id string
	row       map[string]any // nil: deleted
	cols      []string       // changed columns; nil: the whole row
	own       *sh
}

func effStr(m map[string]*effect) string {
	var out []string
	for k, e := range m {
		if e.row == nil {
			out = append(out, "delete "+k)
		} else if e.cols == nil {
			out = append(out, "insert "+k)
		} else {
			out = append(out, fmt.Sprintf("update %s %v", k, e.cols))
		}
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

// settle brings the shadow rows to the state after a save.
func (r *engRun) settle(c *engCmd) {
	type nx struct {
		s   *sh
		row map[string]any
		die bool
		set bool
	}
	var next []nx
	for _, s := range c.all {
		if s.dead {
			continue
		}
		switch {
		case s.alive():
			next = append(next, nx{s, s.row(), false, true})
		case s.explicit():
			next = append(next, nx{s, nil, true, true})
		case c.recursive:
			next = append(next, nx{s, nil, true, true})
		default:
			next = append(next, nx{s, nil, true, false})
		}
	}
	for _, n := range next {
		n.s.dirty = false
		if n.set {
			for col, v := range n.row {
				if n.s.saved != nil && n.s.saved[col] != v {
					if n.s.cols == nil {
						n.s.cols = map[string]bool{}
					}
					n.s.cols[col] = true
				}
			}
			n.s.saved = n.row
			n.s.home = n.s.place()
		}
		if n.die {
			n.s.dead = true
		}
	}
}

// effect is the difference between what was stored before and after c; problem
// is not empty if c used one row in two places.
func (r *engRun) effect(c *engCmd) (map[string]*effect, string) {
	out := map[string]*effect{}
	if c.dry {
		return out, ""
	}
	for _, s := range c.all {
		if s.kind == kBox {
			continue
		}
		id := s.obj.GetID()
		k := engTables[s.kind] + "/" + id
		e := &effect{table: engTables[s.kind], id: id, own: s}
		switch {
		case s.base == nil && s.saved == nil:
			continue
		case s.saved == nil:
		case s.base == nil:
			e.row = s.saved
		default:
			if s.blind {
				continue
			}
			for col, v := range s.saved {
				if s.base[col] != v || s.cols[col] {
					e.cols = append(e.cols, col)
				}
			}
			if e.cols == nil {
				continue
			}
			sort.Strings(e.cols)
			e.row = s.saved
		}
		out[k] = e
	}
	return out, ""
}

func (r *engRun) visible(exp map[string]*effect, c0 int) bool {
	for _, e := range exp {
		cur := r.state[e.table][e.id]
		if r.rowVer[e.table+"/"+e.id] > c0 {
			continue // written meanwhile by another command
		}
		if e.row == nil && cur != nil {
			return true
		}
		if e.row != nil && e.cols == nil && cur == nil {
			return true
		}
		if e.cols != nil && cur != nil {
			for _, col := range e.cols {
				if cur[col] != e.row[col] {
					return true
				}
			}
		}
	}
	return false
}

func (r *engRun) onFault(o *op, kind string) {
	if o.kind == "commit" {
		if c := r.byID[o.cmd]; c != nil {
			c.commHit = true
		}
	}
}

func (r *engRun) onCommit(tx *simdb.Tx, chs []simdb.Change) {
	w := r.w
	if len(chs) == 0 {
		return
	}
	var evRows []map[string]any
	got := map[string]simdb.Change{}
	for _, ch := range chs {
		if ch.Table == "eng_event" {
			evRows = append(evRows, ch.After)
			continue
		}
		row := ch.After
		if row == nil {
			row = ch.Before
		}
		id := row["id"].(string)
		got[ch.Table+"/"+id] = ch
		if ch.After == nil {
			delete(r.state[ch.Table], id)
		} else {
			r.state[ch.Table][id] = storedRow(ch.After)
		}
		r.rowVer[ch.Table+"/"+id] = r.vers + 1
	}
	r.vers++
	c := r.byID[tagCmd(tx.Tag)]
	if c == nil || tx.Tag == 0 {
		return
	}
	w.Log("command %d commits %d change(s)", c.n, len(chs))
	c.commits++
	if c.notx {
		return
	}
	w.Probe("commit")
	if c.commits > 1 {
		w.Fail("C01:two-commits", "command %d commits in two parts", c.n)
	}
	if !c.bodyDone || c.planned != "" || c.mustFail != "" {
		w.Fail("C01:failed-committed", "command %d failed (%s%s, body done: %v) but its changes are committed", c.n, c.planned, c.mustFail, c.bodyDone)
	}
	if c.dry {
		w.Fail("C01:dry-run", "the dry run of command %d stored something", c.n)
		return
	}
	if len(c.keys) > 0 {
		held := 0
		for _, l := range c.locks {
			if l.held {
				held++
			}
		}
		if held < len(c.keys) {
			w.Fail("C03:commit-unlocked", "command %d commits while it holds %d of its %d locks", c.n, held, len(c.keys))
		}
	}
	r.finalSettle(c)
	r.compare(c, got)
	// events
	if c.eng.pers && c.fuzzy == "" {
		rows := map[string]int{}
		for _, e := range evRows {
			if e != nil {
				rows[e["id"].(string)]++
			}
		}
		for _, x := range c.evs {
			if rows[x.id] == 0 && !x.own.transient() {
				w.Fail("C04:not-persisted", "event %s of command %d is not stored with its changes", x.id, c.n)
			}
		}
	}
	if !c.eng.pers && len(evRows) > 0 {
		w.Fail("C04:persisted", "command %d stores events although persistence is off", c.n)
	}
}

// compare checks the committed changes against the reference.
func (r *engRun) compare(c *engCmd, got map[string]simdb.Change) {
	w := r.w
	if c.fuzzy != "" {
		w.Probe("fuzzy")
		return
	}
	exp, _ := r.effect(c)
	w.Probe("effect-checked")
	bad, miss := "", false
	hits := 0
	keys := []string{}
	for k := range exp {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		e := exp[k]
		ch, ok := got[k]
		cur := r.state[e.table][e.id]
		switch {
		case e.row == nil:
			if cur != nil && e.own.blind && r.rowVer[k] > c.v0 {
				break // inserted by another command after the removal
			} else if cur != nil {
				bad, miss = "row "+k+" is not removed", true
			} else if ok {
				hits++
			}
		case e.cols == nil:
			if cur == nil {
				bad, miss = "row "+k+" is not stored", true
			} else if d := sameRow(e.row, cur); d != "" {
				bad = "row " + k + " is stored with " + d
			} else {
				hits++
			}
			if ok && ch.Before != nil {
				bad = "row " + k + " replaces an existing one"
			}
		default:
			if ok {
				before := map[string]any{}
				if ch.Before != nil {
					before = storedRow(ch.Before)
				}
				want := map[string]any{}
				for col, v := range before {
					want[col] = v
				}
				for _, col := range e.cols {
					want[col] = e.row[col]
				}
				if ch.After == nil {
					bad = "row " + k + " is removed"
				} else if d := sameRow(want, storedRow(ch.After)); d != "" {
					bad = "row " + k + " is stored with " + d
				} else {
					hits++
				}
			} else if cur != nil {
				for _, col := range e.cols {
					if cur[col] != e.row[col] {
						bad, miss = fmt.Sprintf("the change of %s.%s is not stored", k, col), true
					}
				}
			}
		}
		if bad != "" {
			break
		}
	}
	if bad == "" {
		for k := range got {
			if exp[k] == nil {
				what := "changed"
				if got[k].Before == nil {
					what = "inserted"
				} else if got[k].After == nil {
					what = "removed"
				}
				bad = "row " + k + " is " + what + " although the command did not touch it"
			}
		}
	}
	if bad == "" {
		// hooks around the save
		for _, k := range keys {
			e := exp[k]
			if e.own.blind || e.own.kind > kItem {
				continue
			}
			h := e.own.hooks
			want := "u"
			if e.row == nil {
				want = "d"
			} else if e.cols == nil {
				want = "c"
			}
			if h["b"+want] == 0 || h["a"+want] == 0 {
				bad = fmt.Sprintf("the save hooks (%s) of %s did not run", want, k)
				break
			}
		}
	}
	if bad != "" {
		w.Fail("C02:effect", "command %d: %s; expected %s", c.n, bad, effStr(exp))
		if miss && hits > 0 {
			w.Fail("C01:partial", "command %d is committed in part: %s; expected %s", c.n, bad, effStr(exp))
		}
	}
}

// onStmt sees every write statement before it is executed.
func (r *engRun) onStmt(tag uint64, q string, args []any) {
	w := r.w
	c := r.byID[tagCmd(tag)]
	if c == nil || tagNode(tag) != c.node.idx {
		return
	}
	f := strings.Fields(q)
	if len(f) < 3 {
		return
	}
	switch f[0] {
	case "INSERT", "UPDATE", "DELETE":
	default:
		return
	}
	c.stmts++
	if c.dry {
		w.Fail("C01:dry-run", "the dry run of command %d writes: %s", c.n, q)
	}
	if len(c.keys) > 0 {
		held := 0
		for _, l := range c.locks {
			if l.held {
				held++
			}
		}
		if held < len(c.keys) {
			w.Fail("C03:write-unlocked", "command %d writes while it holds %d of its %d locks", c.n, held, len(c.keys))
		}
	}
	if f[0] != "UPDATE" || len(args) == 0 || c.fuzzy != "" {
		return
	}
	tbl := strings.Trim(f[1], "`")
	kind, ok := engKind[tbl]
	if !ok {
		return
	}
	id, _ := args[len(args)-1].(string)
	if kind == kMark && len(args) > 1 {
		if x, _ := args[len(args)-2].(string); len(x) > 1 {
			id = x
		}
	}
	w.Probe("update-checked")
	for _, s := range c.all {
		if s.kind != kind || s.obj.GetID() != id || s.dead {
			continue
		}
		if s.saved != nil && s.alive() && sameRow(s.row(), s.saved) == "" {
			w.Fail("C02:needless-write", "command %d writes %s/%s although it did not change it: %s", c.n, tbl, id, q)
		}
		return
	}
	w.Fail("C02:foreign-write", "command %d writes %s/%s which it did not load", c.n, tbl, id)
}

// ---- progress

func (r *engRun) done() bool {
	w := r.w
	for _, en := range r.nodes {
		for q := range en.queues {
			if en.next[q] < len(en.queues[q]) {
				return false
			}
		}
	}
	for _, c := range r.cmds {
		if c.alive() {
			return false
		}
	}
	if r.doneT == 0 {
		r.doneT = w.now() + 1
		w.At(12*time.Second, func() {})
	}
	return w.now() > r.doneT+10*time.Second
}

func engFinal(w *World) {
	r := w.extra.(*engRun)
	if w.why == "time" {
		for _, c := range r.cmds {
			if c.alive() {
				w.Fail("C03:stuck", "command %d never ends (locks held: %d of %v)", c.n, len(c.locks), c.keys)
				w.Fail("C01:stuck", "command %d never ends", c.n)
			}
		}
	}
}
