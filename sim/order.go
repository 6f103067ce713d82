package main

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"sync"
	"time"

	ddd "github.com/bytedance/dddfirework"
	eb "github.com/bytedance/dddfirework/eventbus/mysql"
	"github.com/bytedance/dddfirework/example/biz/sale/application/query"
	"github.com/bytedance/dddfirework/example/biz/sale/infrastructure"
	"github.com/bytedance/dddfirework/example/biz/sale/infrastructure/po"
	"github.com/bytedance/dddfirework/example/common/dto/sale"
	odreg "github.com/bytedance/dddfirework/example/event_handler"
	"github.com/bytedance/dddfirework/example/handler"
	odutil "github.com/bytedance/dddfirework/example/handler/util"
	exec "github.com/bytedance/dddfirework/executor/mysql"
	dblock "github.com/bytedance/dddfirework/lock/db"
	"github.com/go-logr/logr"

	"vsim/simdb"
)

// C17: the order service of example/, as its main wires it, on several nodes:
// HTTP requests in, rows and events out. The registrations of one process are
// shared by all nodes, so the engine works over proxies that lead to the
// components of the calling node.

var odOnce sync.Once
var odEng *ddd.Engine
var odHTTP func(http.ResponseWriter, *http.Request)
var odOnEvent ddd.DomainEventHandler
var odRefused any

const odTTL = 10 * time.Second // as in example/main.go

func odHere() (*odRun, *odNode) {
	w, n, _ := self()
	r := w.extra.(*odRun)
	return r, r.nodes[n.idx-1]
}

type odLock struct{}

func (odLock) Lock(ctx context.Context, key string) (any, error) {
	_, nd := odHere()
	return nd.lk.Lock(ctx, key)
}
func (odLock) UnLock(ctx context.Context, l any) error {
	_, nd := odHere()
	return nd.lk.UnLock(ctx, l)
}

type odExec struct{}

func (odExec) ex() ddd.IExecutor { _, nd := odHere(); return nd.ex }
func (e odExec) Begin(ctx context.Context) (context.Context, error) {
	return e.ex().Begin(ctx)
}
func (e odExec) Commit(ctx context.Context) error   { return e.ex().Commit(ctx) }
func (e odExec) RollBack(ctx context.Context) error { return e.ex().RollBack(ctx) }
func (e odExec) Entity2Model(entity, parent ddd.IEntity, op ddd.OpType) (ddd.IModel, error) {
	return e.ex().Entity2Model(entity, parent, op)
}
func (e odExec) Model2Entity(m ddd.IModel, entity ddd.IEntity) error {
	return e.ex().Model2Entity(m, entity)
}
func (e odExec) Exec(ctx context.Context, a *ddd.Action) error { return e.ex().Exec(ctx, a) }

type odBus struct{}

func (odBus) bus() *eb.EventBus { _, nd := odHere(); return nd.bus }
func (b odBus) Dispatch(ctx context.Context, evt ...*ddd.DomainEvent) error {
	return b.bus().Dispatch(ctx, evt...)
}
func (b odBus) DispatchBegin(ctx context.Context, evt ...*ddd.DomainEvent) (context.Context, error) {
	return b.bus().DispatchBegin(ctx, evt...)
}
func (b odBus) Commit(ctx context.Context) error                   { return b.bus().Commit(ctx) }
func (b odBus) Rollback(ctx context.Context) error                 { return b.bus().Rollback(ctx) }
func (b odBus) RegisterEventTXChecker(cb ddd.DomainEventTXChecker) {}
func (b odBus) RegisterEventHandler(cb ddd.DomainEventHandler) {
	if odOnEvent == nil {
		odOnEvent = cb
	}
}

func odPostSave(ctx context.Context, res *ddd.Result) {
	_, nd := odHere()
	for _, h := range nd.hooks {
		h(ctx, res)
	}
}

// odRegister is what main does once per process.
func odRegister() {
	defer func() { odRefused = recover() }()
	e := ddd.NewEngine(odLock{}, odExec{}, ddd.WithEventBus(odBus{}), ddd.WithPostSave(odPostSave), ddd.WithLogger(logr.Discard()))
	infrastructure.Init()
	odreg.Register(e)
	odHTTP = odutil.Handler(handler.NewSaleService(e))
	odEng = e
}

// ---- the run

type odItem struct {
	Code, Name string
	Price      int64
	Count      int32
}

type odCoupon struct {
	ID, Rule string
	Discount int64
}

// odVer is the state of an order from one commit to the next.
type odVer struct {
	seq            int
	live           bool
	user, remark   string
	total          int64
	items, coupons string
}

type odOrder struct {
	id      string
	cur     odVer
	created time.Time
	items   map[string]odItem
	coupons map[string]odCoupon
	hist    []odVer
	acked   bool
	off     bool // its total is known to be wrong
	loose   bool // a request outlived the lease of its lock
	orphans bool // a request added to it while it was removed
}

type odReq struct {
	n       int
	kind    string
	cmd     uint64
	at      time.Duration
	node    int
	pick    int
	order   string
	user    string
	items   []odItem
	coupons []odCoupon
	remark  *string
	list    handler.GetOrderListRequest
	bad     int // malformed

	began    time.Duration
	seq0     int
	started  bool
	over     bool
	on       *Node
	inc      int
	status   int
	body     string
	commits  int
	evWant   []string
	overlaps bool
	hit0     int
	audit    bool
	noTime   bool // its query names the column create_time
}

type odNode struct {
	n     *Node
	bus   *eb.EventBus
	lk    *dblock.DBLock
	ex    ddd.IExecutor
	hooks []ddd.PostSaveFunc
	ready bool
}

type odEv struct {
	id, key string
	evt     *ddd.DomainEvent
	ok      bool
	running int
}

type odRun struct {
	w        *World
	nodes    []*odNode
	reqs     []*odReq
	byCmd    map[uint64]*odReq
	orders   map[string]*odOrder
	order    []string // ids, by creation
	known    []string // acknowledged
	evs      map[string]*odEv
	evN      map[string]int
	seq      int
	runIntv  time.Duration
	retry    time.Duration
	conc     int
	svcRow   bool
	lastProg time.Duration
	stuck    bool
	audited  bool
	doneT    time.Duration
}

func odScenario() *Scenario {
	odOnce.Do(odRegister)
	return &Scenario{Name: "order", Setup: odSetup, Final: odFinal, Limit: 30 * time.Minute, Steps: 80000,
		Real:   []string{"example/ (HTTP handler, service, commands, domain, infrastructure, queries, event handlers)", "dddfirework engine", "executor/mysql", "eventbus/mysql", "lock/db"},
		Stub:   []string{"HTTP clients (the handler function is called with recorded requests)", "main of the example", "one engine per process, redirected to the components of the calling node"},
		Assume: []string{"totals are judged for orders whose requests end before the lease of their lock", "amounts do not overflow"}}
}

func odItemOf(W *Stream) odItem {
	names := []string{"book", "Ünïcode 订单", "it's \"quoted\"", "", "a\\b%_", strings.Repeat("long ", 60)}
	price := int64(W.N(2000))
	switch W.N(12) {
	case 10:
		price = 1 << 40
	case 11:
		price = -5
	}
	return odItem{Code: fmt.Sprintf("c%d", W.N(5)), Name: names[W.N(len(names))], Price: price, Count: []int32{0, 1, 2, 3, 5, 1000, 40000}[W.N(7)]}
}

func odCouponOf(W *Stream) odCoupon {
	return odCoupon{ID: fmt.Sprintf("cp%d", W.N(4)), Rule: []string{"", "r1", "满100减10", "a'b"}[W.N(4)], Discount: int64(W.N(500))}
}

var odUsers = []string{"u1", "u2", "用户", ""}

func odSetup(w *World) {
	W, F := w.W, w.F
	r := &odRun{w: w, byCmd: map[uint64]*odReq{}, orders: map[string]*odOrder{}, evs: map[string]*odEv{}, evN: map[string]int{}}
	w.extra = r
	for _, m := range []any{&eb.EventPO{}, &eb.Transaction{}, &eb.ServicePO{}, &eb.ServiceEventPO{}, &dblock.ResourceLock{}, &po.OrderPO{}, &po.SaleItemPO{}, &po.CouponPO{}} {
		createTable(w.db, m)
	}
	w.db.OnCommit = r.onCommit
	w.onSQLErr = func(cmd uint64, err error) {
		if q := r.byCmd[cmd]; q != nil && strings.Contains(err.Error(), "'create_time'") {
			q.noTime = true
		}
	}
	if odRefused != nil {
		w.Fail("C17:start-up", "wiring the service panics: %v", odRefused)
		return
	}
	// queries go through a package variable of the process; without idle
	// connections each of them uses one of the calling node
	qdb := openGorm(w)
	if s, err := qdb.DB(); err == nil {
		s.SetMaxIdleConns(-1)
	}
	query.Init(qdb)
	r.runIntv = []time.Duration{100 * time.Millisecond, 500 * time.Millisecond}[W.N(2)]
	r.retry = time.Duration(W.R(1, 10)) * 100 * time.Millisecond
	r.conc = W.R(1, 4)
	nn := W.R(1, 3)
	for i := 0; i < nn; i++ {
		nd := &odNode{}
		nd.n = w.addNode(fmt.Sprintf("n%d", i+1), func(n *Node) { r.boot(nd, n) })
		r.nodes = append(r.nodes, nd)
	}
	nr := W.R(3, 14)
	at := time.Duration(0)
	gap := []int{0, 3, 30, 300}[W.N(4)]
	kinds := []string{"CreateOrder", "AddSaleItem", "AddSaleItem", "AddCoupon", "AddCoupon", "UpdateOrder", "GetOrder", "GetOrderList", "CreateOrder", "DeleteOrder", "bad"}
	hot := W.P(500)
	for i := 0; i < nr; i++ {
		q := &odReq{n: i + 1, kind: kinds[W.N(len(kinds))], at: at, node: W.N(8), pick: W.N(8)}
		if hot && W.P(700) {
			q.pick = 0
		}
		if i == 0 {
			q.kind = "CreateOrder"
		}
		at += time.Duration(W.N(gap+1)) * time.Millisecond
		if W.P(150) {
			at += time.Duration(W.N(5000)) * time.Millisecond
		}
		switch q.kind {
		case "CreateOrder":
			q.user = odUsers[W.N(len(odUsers))]
			n := W.N(4)
			if W.P(30) {
				n = W.R(90, 230)
			}
			for ; n > 0; n-- {
				q.items = append(q.items, odItemOf(W))
			}
			for n := W.N(3); n > 0; n-- {
				q.coupons = append(q.coupons, odCouponOf(W))
			}
		case "AddSaleItem":
			q.items = []odItem{odItemOf(W)}
		case "AddCoupon":
			q.coupons = []odCoupon{odCouponOf(W)}
		case "UpdateOrder":
			if W.P(800) {
				s := []string{"hello", "", "-", "备注 'x'", "hello"}[W.N(5)]
				q.remark = &s
			}
		case "GetOrderList":
			r.genList(W, q)
		case "bad":
			q.bad = W.N(4)
		}
		r.reqs = append(r.reqs, q)
	}
	if F.N(10) >= 4 {
		w.faultsOn, w.fault.on = true, true
		w.fault.rate = []int{2, 6, 15}[F.N(3)]
		w.fault.crashMax = 3
		for _, k := range []string{"err-before", "err-after", "deadlock", "lock-timeout", "sql-error", "stall", "crash-before", "crash-after", "partition", "slow"} {
			if F.N(2) == 1 {
				w.fault.kinds = append(w.fault.kinds, k)
			}
		}
		w.faultEnd = w.start + int64(time.Duration(F.R(5, 30))*time.Second)
		w.drawFocus(45)
		if F.N(4) == 3 {
			for i := F.R(1, 2); i > 0; i-- {
				nd := r.nodes[F.N(len(r.nodes))]
				at := time.Duration(F.N(15000)) * time.Millisecond
				w.At(at, func() {
					if nd.n.alive {
						nd.n.Crash(w.restartDelay())
					}
				})
			}
		}
	}
	for _, nd := range r.nodes {
		nd.n.Start()
	}
	w.At(3*time.Second, r.launch)
	w.done = r.done
}

func (r *odRun) genList(W *Stream, q *odReq) {
	if W.P(400) {
		q.list.UserID = &odUsers[W.N(len(odUsers))]
	}
	if W.P(300) { // relative to the instant of the request, in seconds
		v := int64(W.N(8)) - 6
		q.list.CreateTimeBegin = &v
	}
	if W.P(300) {
		v := int64(W.N(8)) - 4
		q.list.CreateTimeEnd = &v
	}
	if W.P(400) {
		v := int32(W.R(1, 4))
		q.list.Limit = &v
		if W.P(500) {
			o := int32(W.N(4))
			q.list.Offset = &o
		}
	}
}

func (r *odRun) progress() { r.lastProg = r.w.now() }

func (r *odRun) boot(nd *odNode, n *Node) {
	w := r.w
	nd.ready = false
	db := openGorm(w)
	nd.ex = exec.NewExecutor(db)
	nd.lk = dblock.NewDBLock(db, odTTL, func(o *dblock.Options) { o.Logger = logr.Discard() })
	bus := eb.NewEventBus("svc_example", db, func(o *eb.Options) {
		o.Logger = logr.Discard()
		o.RunInterval = r.runIntv
		o.ConsumeConcurrent = r.conc
		o.RetryInterval, o.RetryLimit = r.retry, 1<<30
	})
	self()
	var o ddd.Options
	for _, opt := range bus.Options() {
		opt.ApplyToOptions(&o)
	}
	nd.bus, nd.hooks = bus, o.PostSaveHooks
	bus.RegisterEventHandler(r.deliver)
	bus.Start(context.Background())
	self()
	for !r.svcRow {
		w.Sleep(100 * time.Millisecond)
	}
	nd.ready = true
	r.progress()
	w.Log("%s ready", n.name)
}

// ---- requests

func (r *odRun) launch() {
	for _, q := range r.reqs {
		r.w.At(q.at, func() { r.start(q) })
	}
}

// start gives the request to a node that serves.
func (r *odRun) start(q *odReq) {
	w := r.w
	q.started = true
	var nd *odNode
	for i := range r.nodes {
		c := r.nodes[(q.node+i)%len(r.nodes)]
		if c.n.alive && c.ready {
			nd = c
			break
		}
	}
	if nd == nil {
		if !w.faultsOn {
			w.At(500*time.Millisecond, func() { r.start(q) })
			q.started = false
			return
		}
		q.over, q.status = true, 0
		w.Probe("no-node")
		return
	}
	if q.order == "" {
		q.order = "none"
		if len(r.known) > 0 {
			q.order = r.known[q.pick%len(r.known)]
		}
	}
	q.cmd = w.newCmd()
	r.byCmd[q.cmd] = q
	q.on, q.inc = nd.n, nd.n.inc
	nd.n.Go(q.cmd, func() { r.serve(q) })
}

func (q *odReq) mutates() bool {
	switch q.kind {
	case "AddSaleItem", "AddCoupon", "UpdateOrder", "DeleteOrder", "bad":
		return true
	}
	return false
}

func (q *odReq) running() bool {
	return q.cmd != 0 && !q.over && q.on.alive && q.on.inc == q.inc
}

func (q *odReq) serve0() (string, any) {
	switch q.kind {
	case "CreateOrder":
		req := &handler.CreateOrderRequest{User: q.user}
		for _, i := range q.items {
			req.Items = append(req.Items, &sale.SaleItem{Code: i.Code, Name: i.Name, Price: i.Price, Count: i.Count})
		}
		for _, c := range q.coupons {
			req.Coupons = append(req.Coupons, &sale.Coupon{ID: c.ID, Rule: c.Rule, Discount: c.Discount})
		}
		return q.kind, req
	case "AddSaleItem":
		i := q.items[0]
		return q.kind, &handler.AddSaleItemRequest{OrderID: q.order, Item: &sale.SaleItem{Code: i.Code, Name: i.Name, Price: i.Price, Count: i.Count}}
	case "AddCoupon":
		c := q.coupons[0]
		return q.kind, &handler.AddCouponRequest{OrderID: q.order, Coupon: &sale.Coupon{ID: c.ID, Rule: c.Rule, Discount: c.Discount}}
	case "UpdateOrder":
		return q.kind, &handler.UpdateOrderRequest{ID: q.order, Remark: q.remark}
	case "DeleteOrder":
		return q.kind, &handler.DeleteOrderRequest{ID: q.order}
	case "GetOrder":
		return q.kind, &handler.GetOrderRequest{ID: q.order}
	case "GetOrderList":
		now := time.Now().Unix()
		l := q.list
		if l.CreateTimeBegin != nil {
			v := now + *l.CreateTimeBegin
			l.CreateTimeBegin = &v
		}
		if l.CreateTimeEnd != nil {
			v := now + *l.CreateTimeEnd
			l.CreateTimeEnd = &v
		}
		q.list = l
		return q.kind, &l
	}
	switch q.bad {
	case 0:
		return "NoSuchAction", map[string]any{}
	case 1:
		return "AddSaleItem", "not an object"
	case 2:
		return "AddSaleItem", &handler.AddSaleItemRequest{OrderID: q.order} // no item
	}
	return "AddSaleItem", &handler.AddSaleItemRequest{OrderID: "missing", Item: &sale.SaleItem{Code: "x", Price: 1, Count: 1}}
}

func (r *odRun) serve(q *odReq) {
	w, n, _ := self()
	q.began, q.seq0, q.hit0 = w.now(), r.seq, n.hit
	for _, o := range r.reqs {
		if o != q && o.order == q.order && o.mutates() && (o.running() || o.cmd != 0 && !o.over) {
			q.overlaps = true
			o.overlaps = true
		}
	}
	action, req := q.serve0()
	body, _ := json.Marshal(req)
	w.Log("%s request %d %s %s", n.name, q.n, action, trunc(string(body)))
	rec := httptest.NewRecorder()
	panicked := func() (p any) {
		defer func() { p = recover() }()
		odHTTP(rec, httptest.NewRequest("POST", "/?Action="+url.QueryEscape(action), strings.NewReader(string(body))))
		return nil
	}()
	self()
	q.status, q.body = rec.Code, rec.Body.String()
	if panicked != nil {
		q.status = -1
		if !(q.kind == "bad" && q.bad == 2) {
			w.Fail("C17:panic", "request %d (%s) panics: %v", q.n, q.kind, panicked)
		}
	}
	q.over = true
	r.progress()
	w.Log("%s request %d %s -> %d", n.name, q.n, action, q.status)
	w.Probe(fmt.Sprintf("%s-%d", q.kind, q.status))
	r.judge(q)
}

func trunc(s string) string {
	if len(s) > 160 {
		return s[:160] + "..."
	}
	return s
}

// judge looks at the answer of a request.
func (r *odRun) judge(q *odReq) {
	w := r.w
	o := r.orders[q.order]
	lived := o != nil && r.stateIn(o, q.seq0, func(v odVer) bool { return v.live })
	always := o != nil && !r.stateIn(o, q.seq0, func(v odVer) bool { return !v.live })
	if q.kind != "bad" && q.status != 200 && q.status != 500 {
		w.Fail("C17:status", "request %d (%s) is answered with %d %s", q.n, q.kind, q.status, trunc(q.body))
		return
	}
	quiet := !w.faultsOn
	switch q.kind {
	case "bad":
		if q.status == 200 {
			w.Fail("C17:accepted", "malformed request %d (%d) is answered with success", q.n, q.bad)
		}
		return
	case "CreateOrder":
		if q.status != 200 {
			if quiet {
				w.Fail("C17:refused", "creating an order fails without any fault: %s", trunc(q.body))
			}
			return
		}
		var resp handler.CreateOrderResponse
		if err := json.Unmarshal([]byte(q.body), &resp); err != nil {
			w.Fail("C17:response", "the answer to request %d is %q", q.n, trunc(q.body))
			return
		}
		o := r.orders[resp.OrderID]
		if q.commits == 0 || o == nil || q.order != resp.OrderID {
			w.Fail("C17:lost", "order %q is acknowledged but not stored", resp.OrderID)
			return
		}
		o.acked = true
		r.known = append(r.known, o.id)
		r.events(q)
	case "AddSaleItem", "AddCoupon", "UpdateOrder":
		if q.status == 200 {
			if !lived {
				w.Fail("C17:accepted", "request %d (%s) succeeds for order %q, which does not exist", q.n, q.kind, q.order)
				return
			}
			if q.commits == 0 && !r.noop(q, o) {
				w.Fail("C17:lost", "request %d (%s) is acknowledged but nothing of it is stored", q.n, q.kind)
			}
			r.events(q)
		} else if quiet && always && !q.overlaps {
			w.Fail("C17:refused", "request %d (%s) on order %s fails without any fault or rival: %s", q.n, q.kind, q.order, trunc(q.body))
		}
	case "DeleteOrder":
		if q.status == 200 {
			if always {
				w.Fail("C17:lost", "removing order %s is acknowledged but it is still stored", q.order)
			}
			r.events(q)
		} else if quiet && !q.overlaps {
			w.Fail("C17:refused", "removing order %s fails without any fault or rival: %s", q.order, trunc(q.body))
		}
	case "GetOrder":
		if q.status == 200 {
			if !lived {
				w.Fail("C17:read-removed", "order %q is returned although it does not exist", q.order)
				return
			}
			r.judgeRead(q, o)
		} else if quiet && always {
			w.Fail("C17:refused", "reading order %s fails without any fault: %s", q.order, trunc(q.body))
		}
	case "GetOrderList":
		if q.status == 200 {
			r.judgeList(q)
		} else if quiet && q.noTime && (q.list.CreateTimeBegin != nil || q.list.CreateTimeEnd != nil) {
			w.Fail("C17:list-by-time", "listing orders by their creation time fails: %s", trunc(q.body))
		} else if quiet {
			w.Fail("C17:refused", "listing orders fails without any fault: %s", trunc(q.body))
		}
	}
}

// noop: the request changes nothing.
func (r *odRun) noop(q *odReq, o *odOrder) bool {
	if q.kind != "UpdateOrder" {
		return false
	}
	return q.remark == nil || r.stateIn(o, q.seq0, func(v odVer) bool { return v.remark == *q.remark }) ||
		r.stateIn(o, q.seq0, func(v odVer) bool { return !v.live })
}

// stateIn: some state of the order since commit seq0 satisfies f.
func (r *odRun) stateIn(o *odOrder, seq0 int, f func(odVer) bool) bool {
	for i, v := range o.hist {
		if i+1 < len(o.hist) && o.hist[i+1].seq <= seq0 {
			continue
		}
		if f(v) {
			return true
		}
	}
	// before its creation
	return o.hist[0].seq > seq0 && f(odVer{})
}

// events: what an acknowledged request announces is stored for delivery.
func (r *odRun) events(q *odReq) {
	n := map[string]int{}
	for _, k := range q.evWant {
		if n[k]++; r.evN[k] < n[k] {
			r.w.Fail("C17:event", "request %d (%s) succeeded, event %s is stored %d times", q.n, q.kind, k, r.evN[k])
		}
	}
}

func odBag(l []string) string { sort.Strings(l); return strings.Join(l, ";") }

func (i odItem) String() string   { return fmt.Sprintf("%q/%q/%d/%d", i.Code, i.Name, i.Price, i.Count) }
func (c odCoupon) String() string { return fmt.Sprintf("%q/%d", c.Rule, c.Discount) }

func (r *odRun) judgeRead(q *odReq, o *odOrder) {
	w := r.w
	var resp handler.GetOrderResponse
	if err := json.Unmarshal([]byte(q.body), &resp); err != nil || resp.Order == nil {
		w.Fail("C17:response", "the answer to request %d is %q", q.n, trunc(q.body))
		return
	}
	var it, cp []string
	for _, i := range resp.Order.Items {
		it = append(it, odItem{i.Code, i.Name, i.Price, i.Count}.String())
	}
	for _, c := range resp.Order.Coupons {
		cp = append(cp, odCoupon{c.ID, c.Rule, c.Discount}.String())
	}
	items, coupons := odBag(it), odBag(cp)
	// the order, its items and its coupons are read one after the other
	read := func(noItems bool) bool {
		step := 0
		if resp.Order.ID != o.id {
			return false
		}
		for i, v := range o.hist {
			if i+1 < len(o.hist) && o.hist[i+1].seq <= q.seq0 {
				continue
			}
			if step == 0 && v.live && v.user == resp.Order.UserID && v.total == resp.Order.TotalAmount {
				step = 1
			}
			if step == 1 && (v.items == items || noItems) {
				step = 2
			}
			if step == 2 && v.coupons == coupons {
				step = 3
			}
		}
		return step == 3
	}
	switch {
	case read(false):
	case len(it) == 0 && read(true):
		w.Fail("C17:read-no-items", "order %s is read without its items", q.order)
	default:
		w.Fail("C17:read", "order %s is read as %s; stored is %+v", q.order, trunc(q.body), o.hist[len(o.hist)-1])
	}
	w.Probe("read")
}

func (r *odRun) judgeList(q *odReq) {
	w := r.w
	var resp handler.GetOrderListResponse
	if err := json.Unmarshal([]byte(q.body), &resp); err != nil {
		w.Fail("C17:response", "the answer to request %d is %q", q.n, trunc(q.body))
		return
	}
	match := func(o *odOrder) bool {
		l := q.list
		return (l.UserID == nil || *l.UserID == o.cur.user) &&
			(l.CreateTimeBegin == nil || o.created.After(time.Unix(*l.CreateTimeBegin, 0))) &&
			(l.CreateTimeEnd == nil || o.created.Before(time.Unix(*l.CreateTimeEnd, 0)))
	}
	seen := map[string]bool{}
	for _, x := range resp.Items {
		o := r.orders[x.ID]
		if seen[x.ID] {
			w.Fail("C17:list", "order %s is listed twice", x.ID)
			return
		}
		seen[x.ID] = true
		if o == nil || !r.stateIn(o, q.seq0, func(v odVer) bool {
			return v.live && v.user == x.UserID && v.total == x.TotalAmount
		}) {
			w.Fail("C17:list", "request %d lists %+v, which is no order", q.n, *x)
			return
		}
		if !match(o) {
			w.Fail("C17:list", "request %d (%s) lists order %s of user %q created at %v", q.n, odList(q), o.id, o.cur.user, o.created)
			return
		}
	}
	// how many must and may be listed
	lo, hi := 0, 0
	for _, id := range r.order {
		o := r.orders[id]
		if !match(o) {
			continue
		}
		if r.stateIn(o, q.seq0, func(v odVer) bool { return v.live }) {
			hi++
			if !r.stateIn(o, q.seq0, func(v odVer) bool { return !v.live }) {
				lo++
			}
		}
	}
	cut := func(n int) int {
		if q.list.Offset != nil {
			n = max(0, n-int(*q.list.Offset))
		}
		if q.list.Limit != nil {
			n = min(n, int(*q.list.Limit))
		}
		return n
	}
	if n := len(resp.Items); n < cut(lo) || n > cut(hi) {
		w.Fail("C17:list", "request %d (%s) lists %d orders, there are %d to %d", q.n, odList(q), n, cut(lo), cut(hi))
	}
	w.Probe("list")
}

func odList(q *odReq) string { b, _ := json.Marshal(q.list); return string(b) }

// ---- store

func odStr(v any) string {
	if v == nil {
		return ""
	}
	return fmt.Sprint(v)
}

func odInt(v any) int64 {
	n, _ := v.(int64)
	return n
}

func (r *odRun) onCommit(tx *simdb.Tx, chs []simdb.Change) {
	w := r.w
	q := r.byCmd[tagCmd(tx.Tag)]
	if tx.Tag == 0 {
		q = nil
	}
	var biz []simdb.Change
	for _, c := range chs {
		switch c.Table {
		case "example_order", "example_order_item", "example_order_coupon":
			biz = append(biz, c)
		case "ddd_domain_event":
			if c.Before == nil {
				r.newEvent(c.After)
			}
		case "ddd_eventbus_service":
			r.svcRow = r.svcRow || c.After != nil
		}
	}
	if len(biz) == 0 {
		return
	}
	r.progress()
	if q == nil {
		w.Fail("C17:stray-write", "a transaction of no request changes %s", biz[0].Table)
		return
	}
	r.seq++
	q.commits++
	w.Log("request %d (%s) commits %d row(s)", q.n, q.kind, len(biz))
	if q.commits > 1 {
		w.Fail("C17:twice", "request %d (%s) commits twice", q.n, q.kind)
	}
	r.apply(q, biz)
}

// apply checks what a request stored and follows the orders.
func (r *odRun) apply(q *odReq, chs []simdb.Change) {
	w := r.w
	bad := func(f string, a ...any) {
		w.Fail("C17:effect", "request %d (%s of order %s): %s", q.n, q.kind, q.order, fmt.Sprintf(f, a...))
	}
	touched := map[string]*odOrder{}
	get := func(id string) *odOrder {
		o := r.orders[id]
		if o == nil {
			o = &odOrder{id: id, items: map[string]odItem{}, coupons: map[string]odCoupon{}}
			r.orders[id] = o
			r.order = append(r.order, id)
		}
		touched[id] = o
		return o
	}
	var newItems, newCoupons []string
	removed := ""
	want := func(t, a, b string) { q.evWant = append(q.evWant, t+"|"+a+"|"+b) }
	// orders first: a new one is needed for its parts
	sort.SliceStable(chs, func(i, j int) bool { return chs[i].Table == "example_order" && chs[j].Table != "example_order" })
	for _, c := range chs {
		row := c.After
		if row == nil {
			row = c.Before
		}
		id := odStr(row["id"])
		switch c.Table {
		case "example_order":
			switch {
			case c.Before == nil:
				if q.kind != "CreateOrder" || q.order != "none" && r.orders[q.order] != nil && r.orders[q.order].cur.live && q.commits == 0 {
					bad("creates order %s", id)
					return
				}
				if old := r.orders[id]; old != nil {
					bad("creates order %s again", id)
					return
				}
				q.order = id
				o := get(id)
				o.cur = odVer{live: true, user: odStr(row["user"]), remark: odStr(row["remark"]), total: odInt(row["total_amount"])}
				o.created, _ = row["created_at"].(time.Time)
				if o.cur.user != q.user || o.cur.remark != "-" {
					bad("stores user %q and remark %q", o.cur.user, o.cur.remark)
				}
				if d := time.Since(o.created); d < -time.Minute || d > time.Hour {
					bad("stores the creation time %v", o.created)
				}
				want("order_created", id, "")
			case c.After == nil:
				if q.kind != "DeleteOrder" || id != q.order {
					bad("removes order %s", id)
				}
				o := get(id)
				o.cur.live = false
				removed = id
			default:
				o := get(id)
				user, remark, total := odStr(row["user"]), odStr(row["remark"]), odInt(row["total_amount"])
				if id != q.order {
					bad("changes order %s", id)
					return
				}
				if user != o.cur.user {
					bad("changes the user from %q to %q", o.cur.user, user)
				}
				if remark != o.cur.remark && (q.kind != "UpdateOrder" || q.remark == nil || remark != *q.remark) {
					bad("changes the remark from %q to %q", o.cur.remark, remark)
				}
				if total != o.cur.total && q.kind != "AddSaleItem" && q.kind != "AddCoupon" {
					bad("changes the total from %d to %d", o.cur.total, total)
				}
				if t, ok := row["created_at"].(time.Time); ok && !t.Equal(o.created) {
					bad("changes the creation time from %v to %v", o.created, t)
				}
				o.cur.user, o.cur.remark, o.cur.total = user, remark, total
			}
		case "example_order_item":
			oid := odStr(row["order_id"])
			if c.After == nil && q.kind == "DeleteOrder" && oid == q.order {
				delete(get(oid).items, id)
				continue
			}
			if c.Before != nil {
				bad("changes or removes item %s of order %q", id, oid)
				return
			}
			it := odItem{odStr(row["code"]), odStr(row["name"]), odInt(row["price"]), int32(odInt(row["count"]))}
			newItems = append(newItems, it.String())
			if oid != q.order {
				bad("stores an item for order %q", oid)
				return
			}
			get(oid).items[id] = it
			want("order_sale_item_added", oid, id)
		case "example_order_coupon":
			oid := odStr(row["order_id"])
			if c.After == nil && q.kind == "DeleteOrder" && oid == q.order {
				delete(get(oid).coupons, id)
				continue
			}
			if c.Before != nil {
				bad("changes or removes coupon %s of order %q", id, oid)
				return
			}
			cp := odCoupon{odStr(row["coupon_id"]), odStr(row["rule"]), odInt(row["discount"])}
			newCoupons = append(newCoupons, cp.ID+cp.String())
			if oid != q.order {
				bad("stores a coupon for order %q", oid)
				return
			}
			get(oid).coupons[id] = cp
			want("order_coupon_added", oid, cp.ID)
		}
	}
	var wi, wc []string
	switch q.kind {
	case "CreateOrder", "AddSaleItem", "AddCoupon":
		for _, i := range q.items {
			wi = append(wi, i.String())
		}
		for _, c := range q.coupons {
			wc = append(wc, c.ID+c.String())
		}
	}
	if a, b := odBag(newItems), odBag(wi); a != b {
		bad("adds the items %s, asked for were %s", trunc(a), trunc(b))
	}
	if a, b := odBag(newCoupons), odBag(wc); a != b {
		bad("adds the coupons %s, asked for were %s", trunc(a), trunc(b))
	}
	if o := r.orders[q.order]; o != nil && q.kind == "UpdateOrder" && q.remark != nil && o.cur.live && o.cur.remark != *q.remark {
		bad("leaves the remark %q, asked for was %q", o.cur.remark, *q.remark)
	}
	if q.kind == "DeleteOrder" && removed != "" {
		want("order_deleted", removed, "")
	}
	late := w.now()-q.began > odTTL-time.Second
	for _, id := range r.order {
		o := touched[id]
		if o == nil {
			continue
		}
		if late && q.kind != "CreateOrder" {
			o.loose = true
		}
		for _, x := range r.reqs {
			if x != q && x.order == id && x.cmd != 0 && !x.over && x.mutates() && w.now()-x.began > odTTL-time.Second {
				o.loose = true
			}
		}
		var it, cp []string
		sum := int64(0)
		for _, i := range o.items {
			it = append(it, i.String())
			sum += i.Price * int64(i.Count)
		}
		for _, c := range o.coupons {
			cp = append(cp, c.String())
			sum -= c.Discount
		}
		o.cur.seq, o.cur.items, o.cur.coupons = r.seq, odBag(it), odBag(cp)
		o.hist = append(o.hist, o.cur)
		if len(o.hist) == 1 && !o.cur.live {
			bad("adds to order %s, which never existed", id)
		}
		part := int64(0) // what this request alone adds up to
		for _, i := range q.items {
			part += i.Price * int64(i.Count)
		}
		for _, c := range q.coupons {
			part -= c.Discount
		}
		switch add := q.kind == "AddSaleItem" || q.kind == "AddCoupon"; {
		case !o.cur.live || o.loose:
		case o.cur.total == sum:
			o.off = false
		case add && o.cur.total == part:
			o.off = true
			w.Fail("C17:total-of-part", "after request %d (%s) order %s has the total %d, that of what the request adds, its items and coupons make %d", q.n, q.kind, id, o.cur.total, sum)
		case o.off && !add: // still wrong; that the total did not change is checked above
		default:
			w.Fail("C17:total", "after request %d (%s) order %s has the total %d, its items and coupons make %d", q.n, q.kind, id, o.cur.total, sum)
		}
	}
}

// ---- events

func (r *odRun) newEvent(row map[string]any) {
	w := r.w
	evt := &ddd.DomainEvent{}
	if err := json.Unmarshal([]byte(odStr(row["event"])), evt); err != nil {
		w.Fail("C17:event", "a broken event is stored: %v", err)
		return
	}
	var p struct{ OrderID, SaleItemID, CouponID string }
	_ = json.Unmarshal(evt.Payload, &p)
	typ := string(evt.Type)
	if p.CouponID != "" && typ == "order_sale_item_added" {
		w.Fail("C17:coupon-event-type", "coupon %s of order %s is announced as an added item", p.CouponID, p.OrderID)
		typ = "order_coupon_added"
	}
	e := &odEv{id: evt.ID, evt: evt, key: fmt.Sprintf("%s|%s|%s", typ, p.OrderID, p.SaleItemID+p.CouponID)}
	r.evs[evt.ID] = e
	r.evN[e.key]++
	w.Log("event %s", e.key)
	w.Probe("event")
	if evt.Sender != p.OrderID || p.OrderID == "" {
		w.Fail("C17:event", "event %s has the sender %q", e.key, evt.Sender)
	}
}

func (r *odRun) deliver(ctx context.Context, evt *ddd.DomainEvent) error {
	w, n, _ := self()
	e := r.evs[evt.ID]
	if e == nil || string(e.evt.Payload) != string(evt.Payload) || e.evt.Type != evt.Type {
		w.Fail("C17:event", "an event %s of type %s arrives that was never stored", evt.ID, evt.Type)
		return nil
	}
	w.Log("%s delivers %s", n.name, e.key)
	w.Probe("delivery")
	hit := n.hit
	err := odOnEvent(ctx, evt)
	self()
	if err != nil {
		if !w.faultsOn && n.hit == hit {
			w.Fail("C17:handler", "handling %s fails without any fault: %v", e.key, err)
		}
		return err
	}
	e.ok = true
	r.progress()
	return nil
}

// ---- end

// missing names something that must still happen.
func (r *odRun) missing() string {
	ids := make([]string, 0, len(r.evs))
	for id := range r.evs {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		if !r.evs[id].ok {
			return fmt.Sprintf("event %s is not handled", r.evs[id].key)
		}
	}
	return ""
}

func (r *odRun) idle() string {
	for _, nd := range r.nodes {
		if !nd.n.alive || !nd.ready {
			return nd.n.name + " does not serve"
		}
	}
	for _, q := range r.reqs {
		if !q.started {
			return fmt.Sprintf("request %d is not sent", q.n)
		}
		if q.running() {
			return fmt.Sprintf("request %d (%s) is not answered", q.n, q.kind)
		}
	}
	return ""
}

// audit reads every order once more.
func (r *odRun) audit() {
	r.audited = true
	ids := append([]string{"never"}, r.order...)
	for i, id := range ids {
		q := &odReq{n: 1000 + i, kind: "GetOrder", order: id, node: i, audit: true}
		r.reqs = append(r.reqs, q)
		r.w.At(time.Duration(i)*time.Millisecond+1, func() { r.start(q) })
	}
	q := &odReq{n: 2000, kind: "GetOrderList", audit: true}
	r.reqs = append(r.reqs, q)
	r.w.At(1, func() { r.start(q) })
	// the stored events are those of the requests that took effect
	want, most, spare := map[string]int{}, map[string]int{}, map[string]int{}
	for _, q := range r.reqs {
		for _, k := range q.evWant {
			want[k]++
			most[k]++
		}
		if q.kind == "DeleteOrder" && len(q.evWant) == 0 { // there was nothing to remove
			most["order_deleted|"+q.order+"|"]++
		}
		if q.cmd != 0 && q.commits == 0 && q.status != 200 && r.w.faultsOn {
			// events are stored just before the transaction of their request ends
			switch q.kind {
			case "CreateOrder":
				spare["order_created"]++
				spare["order_sale_item_added"] += len(q.items)
				spare["order_coupon_added"] += len(q.coupons)
			case "AddSaleItem":
				spare["order_sale_item_added"]++
			case "AddCoupon":
				spare["order_coupon_added"]++
			}
		}
	}
	keys := make([]string, 0, len(r.evN))
	for k := range r.evN {
		keys = append(keys, k)
	}
	for k := range want {
		if r.evN[k] == 0 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		typ := k[:strings.IndexByte(k, '|')]
		for n := r.evN[k]; n > most[k] && spare[typ] > 0; spare[typ]-- {
			most[k]++
		}
		if n := r.evN[k]; n < want[k] || n > most[k] {
			r.w.Fail("C17:event", "event %s is stored %d times, requests that took effect raised it %d times", k, n, want[k])
		}
	}
}

func (r *odRun) patience() time.Duration {
	q := 60*time.Second + odTTL
	for _, k := range r.w.fault.kinds {
		if k == "stall" {
			q += 150 * time.Second
			break
		}
	}
	return q
}

func (r *odRun) done() bool {
	w := r.w
	since := r.lastProg
	if w.faultsOn {
		since = max(since, time.Duration(w.faultEnd-w.start))
	}
	if w.now()-since > r.patience() {
		r.stuck = true
		return true
	}
	if w.now() < 3*time.Second || w.faultsActive() || r.idle() != "" || r.missing() != "" {
		r.doneT = 0
		return false
	}
	if !r.audited {
		r.audit()
		return false
	}
	if r.doneT == 0 {
		r.doneT = w.now() + 1
		w.At(time.Second+2, func() {})
	}
	return w.now() >= r.doneT+time.Second
}

func odFinal(w *World) {
	r := w.extra.(*odRun)
	if w.truncated {
		w.Probe("truncated")
		w.Log("truncated: idle=%q missing=%q", r.idle(), r.missing())
	}
	if w.why != "time" && !r.stuck {
		return
	}
	if s := r.idle(); s != "" {
		w.Fail("C17:stuck", "the service never becomes idle after faults stopped: %s", s)
		return
	}
	if s := r.missing(); s != "" {
		w.Fail("C17:not-handled", "%s", s)
	}
}
