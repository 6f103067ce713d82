package simdb

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/go-sql-driver/mysql"
)

// ErrWait means the statement must wait for Tx.WaitFor to finish.
var ErrWait = errors.New("simdb: lock wait")

type Kind uint8

const (
	KInt Kind = iota
	KFloat
	KStr
	KBytes
	KTime
)

type Col struct {
	Name    string
	Kind    Kind
	Size    int  // varchar characters, blob bytes, int bits
	Text    bool // utf8mb4
	Prec    int  // datetime fraction digits
	NotNull bool
	AutoInc bool
	Unsign  bool
	HasDef  bool
	Def     any
}

type index struct {
	name string
	cols []int
}

type Table struct {
	Name    string
	Cols    []Col
	byName  map[string]int
	pk      []int
	uniques []index // includes the primary key as PRIMARY
	rows    []*Row
	nextID  int64
	autoInc int64
	autoCol int
}

type ver struct {
	seq  uint64
	vals []any // nil: deleted
}

// Row is one logical record with its committed versions and at most one pending
// (uncommitted) image owned by the transaction holding the row lock.
type Row struct {
	t       *Table
	id      int64
	vers    []ver
	lock    *Tx
	shared  []*Tx // holders of a shared lock
	hasPend bool
	pend    []any // nil: deleted
}

func (r *Row) committed() []any {
	if len(r.vers) == 0 {
		return nil
	}
	return r.vers[len(r.vers)-1].vals
}

func (r *Row) at(seq uint64) []any {
	for i := len(r.vers) - 1; i >= 0; i-- {
		if r.vers[i].seq <= seq {
			return r.vers[i].vals
		}
	}
	return nil
}

// Change is one committed row change.
type Change struct {
	Seq    uint64
	Tag    uint64 // caller-supplied owner of the transaction
	Table  string
	Before map[string]any // nil: insert
	After  map[string]any // nil: delete
}

type DB struct {
	Tables   map[string]*Table
	seq      uint64
	Now      func() time.Time
	OnCommit func(tx *Tx, changes []Change)
	// Shuffle, if set, draws the order of rows that ORDER BY leaves open.
	Shuffle func(n int) []int
	// Version changes whenever a lock is released, so waiters retry.
	Version uint64
	Stats   Stats
	txn     uint64
	active  map[*Tx]struct{}
}

type Stats struct {
	Stmts, Commits, Rollbacks, LockWaits, NowaitErr, Deadlocks, DupKey, SnapshotOld int
}

func New(now func() time.Time) *DB {
	return &DB{Tables: map[string]*Table{}, Now: now, active: map[*Tx]struct{}{}}
}

func (db *DB) AddTable(name string, cols []Col, pk []string, uniques [][]string) *Table {
	t := &Table{Name: name, Cols: cols, byName: map[string]int{}, autoCol: -1, autoInc: 1}
	for i, c := range cols {
		t.byName[strings.ToLower(c.Name)] = i
		if c.AutoInc {
			t.autoCol = i
		}
	}
	mk := func(n string, cs []string) index {
		ix := index{name: n}
		for _, c := range cs {
			i, ok := t.byName[strings.ToLower(c)]
			if !ok {
				panic("simdb: bad index column " + c)
			}
			ix.cols = append(ix.cols, i)
		}
		return ix
	}
	if len(pk) > 0 {
		ix := mk("PRIMARY", pk)
		t.pk = ix.cols
		t.uniques = append(t.uniques, ix)
	}
	for i, u := range uniques {
		t.uniques = append(t.uniques, mk(fmt.Sprintf("uq_%s_%d", name, i), u))
	}
	db.Tables[strings.ToLower(name)] = t
	return t
}

func (db *DB) table(n string) *Table {
	t := db.Tables[strings.ToLower(n)]
	if t == nil {
		unsupported("unknown table %q", n)
	}
	return t
}

type undo struct {
	row     *Row
	hadPend bool
	pend    []any
	created bool
}

type savepoint struct {
	name string
	n    int
}

// Tx is a server-side transaction (explicit or one autocommit statement).
type Tx struct {
	db      *DB
	ID      uint64
	Tag     uint64
	auto    bool
	readSeq uint64
	hasRead bool
	undo    []undo
	saves   []savepoint
	locked  []*Row
	WaitFor *Tx
	Done    bool
	Doomed  bool // rolled back by the server (deadlock victim)
}

func (db *DB) Begin(tag uint64) *Tx {
	db.txn++
	tx := &Tx{db: db, ID: db.txn, Tag: tag}
	db.active[tx] = struct{}{}
	return tx
}

// Active reports whether some transaction is open.
func (db *DB) Active() int { return len(db.active) }

func (tx *Tx) lockRow(r *Row) {
	if r.lock != tx {
		r.lock = tx
		tx.locked = append(tx.locked, r)
	}
}

// shareRow takes a shared lock, unless tx holds the exclusive one.
func (tx *Tx) shareRow(r *Row) {
	if r.lock == tx || r.sharedBy(tx) {
		return
	}
	r.shared = append(r.shared, tx)
	tx.locked = append(tx.locked, r)
}

func (r *Row) sharedBy(tx *Tx) bool {
	for _, t := range r.shared {
		if t == tx {
			return true
		}
	}
	return false
}

// blocker is a transaction whose lock on r keeps tx from its own; with several, one
// that waits for tx itself.
func (r *Row) blocker(tx *Tx, share bool) *Tx {
	if r.lock != nil && r.lock != tx {
		return r.lock
	}
	if share {
		return nil
	}
	var other *Tx
	for _, t := range r.shared {
		if t == tx {
			continue
		}
		if other == nil {
			other = t
		}
		for x := t; x != nil; x = x.WaitFor {
			if x == tx {
				return t
			}
		}
	}
	return other
}

func (tx *Tx) write(r *Row, vals []any, created bool) {
	tx.undo = append(tx.undo, undo{r, r.hasPend, r.pend, created})
	r.hasPend = true
	r.pend = vals
}

func (tx *Tx) undoTo(n int) {
	for i := len(tx.undo) - 1; i >= n; i-- {
		u := tx.undo[i]
		u.row.hasPend, u.row.pend = u.hadPend, u.pend
		if u.created {
			u.row.t.remove(u.row)
			if u.row.lock == tx {
				u.row.lock = nil
			}
		}
	}
	if n < len(tx.undo) {
		tx.db.Version++
	}
	tx.undo = tx.undo[:n]
}

func (t *Table) remove(r *Row) {
	for i, x := range t.rows {
		if x == r {
			t.rows = append(t.rows[:i:i], t.rows[i+1:]...)
			return
		}
	}
}

func (t *Table) toMap(vals []any) map[string]any {
	if vals == nil {
		return nil
	}
	m := make(map[string]any, len(vals))
	for i, c := range t.Cols {
		m[c.Name] = vals[i]
	}
	return m
}

func (tx *Tx) release() {
	if len(tx.locked) > 0 || len(tx.undo) > 0 {
		tx.db.Version++
	}
	for _, r := range tx.locked {
		if r.lock == tx {
			r.lock = nil
		}
		for i, t := range r.shared {
			if t == tx {
				r.shared = append(r.shared[:i:i], r.shared[i+1:]...)
				break
			}
		}
	}
	tx.locked = nil
	tx.Done = true
	delete(tx.db.active, tx)
}

func (tx *Tx) Commit() {
	if tx.Done {
		return
	}
	db := tx.db
	db.Stats.Commits++
	seen := map[*Row]bool{}
	var rows []*Row
	for _, u := range tx.undo {
		if !seen[u.row] {
			seen[u.row] = true
			rows = append(rows, u.row)
		}
	}
	var changes []Change
	if len(rows) > 0 {
		db.seq++
	}
	for _, r := range rows {
		if !r.hasPend {
			continue
		}
		before := r.committed()
		after := r.pend
		r.hasPend, r.pend = false, nil
		if before == nil && after == nil {
			r.t.remove(r)
			continue
		}
		r.vers = append(r.vers, ver{db.seq, after})
		changes = append(changes, Change{Seq: db.seq, Tag: tx.Tag, Table: r.t.Name, Before: r.t.toMap(before), After: r.t.toMap(after)})
	}
	tx.release()
	db.gc(rows)
	if len(changes) > 0 && db.OnCommit != nil {
		db.OnCommit(tx, changes)
	}
}

// gc drops row versions no active snapshot can see.
func (db *DB) gc(rows []*Row) {
	min := db.seq
	for tx := range db.active {
		if tx.hasRead && tx.readSeq < min {
			min = tx.readSeq
		}
	}
	for _, r := range rows {
		if len(r.vers) == 0 {
			continue
		}
		i := len(r.vers) - 1
		for i > 0 && r.vers[i].seq > min {
			i--
		}
		r.vers = r.vers[i:]
		if len(r.vers) == 1 && r.vers[0].vals == nil && r.vers[0].seq <= min && !r.hasPend && r.lock == nil && len(r.shared) == 0 {
			r.t.remove(r)
		}
	}
}

func (tx *Tx) Rollback() {
	if tx.Done {
		return
	}
	tx.db.Stats.Rollbacks++
	tx.undoTo(0)
	tx.release()
}

// view returns the row image the transaction sees. current reads see the latest
// committed image; snapshot reads see the image at readSeq.
func (tx *Tx) view(r *Row, current bool) []any {
	if r.hasPend && r.lock == tx {
		return r.pend
	}
	if current || tx.auto {
		return r.committed()
	}
	return r.at(tx.readSeq)
}

// Rows returns the committed rows of a table (harness use; takes no locks).
func (db *DB) Rows(name string) []map[string]any {
	t := db.table(name)
	var out []map[string]any
	for _, r := range t.rows {
		if v := r.committed(); v != nil {
			out = append(out, t.toMap(v))
		}
	}
	return out
}

func sqlErr(n uint16, f string, a ...any) error {
	return &mysql.MySQLError{Number: n, Message: fmt.Sprintf(f, a...)}
}

type Result struct {
	Cols     []string
	ColTypes []*Col
	Rows     [][]any
	LastID   int64
	Affected int64
}

// Exec runs a statement inside tx. With auto, tx is a one-statement transaction
// that the caller commits on success.
func (tx *Tx) Exec(sql string, args []any) (res *Result, err error) {
	st := ParseSQL(sql)
	db := tx.db
	db.Stats.Stmts++
	if len(args) != st.params {
		return nil, fmt.Errorf("sql: expected %d arguments, got %d", st.params, len(args))
	}
	mark := len(tx.undo)
	tx.WaitFor = nil
	ec := &ectx{db: db, tx: tx, args: args}
	defer func() {
		if err != nil && !tx.Done {
			tx.undoTo(mark)
		}
	}()
	switch st.kind {
	case sSelect:
		return tx.sel(st, ec)
	case sInsert:
		return tx.insert(st, ec)
	case sUpdate:
		return tx.update(st, ec)
	case sDelete:
		return tx.del(st, ec)
	case sSavepoint:
		tx.saves = append(tx.saves, savepoint{st.name, len(tx.undo)})
		return &Result{}, nil
	case sRollbackTo:
		for i := len(tx.saves) - 1; i >= 0; i-- {
			if tx.saves[i].name == st.name {
				tx.undoTo(tx.saves[i].n)
				tx.saves = tx.saves[:i+1]
				return &Result{}, nil
			}
		}
		return nil, sqlErr(1305, "SAVEPOINT %s does not exist", st.name)
	case sRelease:
		return &Result{}, nil
	}
	unsupported("%q through Exec", sql)
	return nil, nil
}

func (tx *Tx) SetAuto() { tx.auto = true }

// waitOn registers that tx must wait for other; a wait cycle makes tx the victim.
func (tx *Tx) waitOn(other *Tx) error {
	for t := other; t != nil; t = t.WaitFor {
		if t == tx {
			tx.db.Stats.Deadlocks++
			tx.Doomed = true
			tx.Rollback()
			return sqlErr(1213, "Deadlock found when trying to get lock; try restarting transaction")
		}
	}
	tx.db.Stats.LockWaits++
	tx.WaitFor = other
	return ErrWait
}

// LockWaitTimeout is returned to a statement whose wait exceeded
// innodb_lock_wait_timeout; only the statement is rolled back.
func LockWaitTimeout() error {
	return sqlErr(1205, "Lock wait timeout exceeded; try restarting transaction")
}

// match collects the rows satisfying where. With locking, rows held by another
// transaction block (or fail with NOWAIT, or are skipped).
func (tx *Tx) match(t *Table, st *stmt, ec *ectx, locking bool) ([]*Row, [][]any, error) {
	db := tx.db
	if !locking && !tx.auto && !tx.hasRead {
		tx.hasRead, tx.readSeq = true, db.seq
	}
	test := func(v []any) (bool, error) {
		if st.where == nil {
			return true, nil
		}
		ec.t, ec.row = t, v
		return ec.truth(st.where)
	}
	var rows []*Row
	var vals [][]any
	for _, r := range t.rows {
		if other := r.blocker(tx, st.lock == lockShare); locking && other != nil {
			hit := false
			for _, v := range [][]any{r.committed(), r.pend} {
				if v == nil {
					continue
				}
				ok, err := test(v)
				if err != nil {
					return nil, nil, err
				}
				hit = hit || ok
			}
			if hit {
				if st.skip {
					continue
				}
				if st.nowait {
					db.Stats.NowaitErr++
					return nil, nil, sqlErr(3572, "Statement aborted because lock(s) could not be acquired immediately and NOWAIT is set.")
				}
				return nil, nil, tx.waitOn(other)
			}
			continue
		}
		v := tx.view(r, locking)
		if !locking && !tx.auto && len(r.vers) > 0 && r.vers[len(r.vers)-1].seq > tx.readSeq {
			db.Stats.SnapshotOld++
		}
		if v == nil {
			continue
		}
		ok, err := test(v)
		if err != nil {
			return nil, nil, err
		}
		if ok {
			rows = append(rows, r)
			vals = append(vals, v)
		}
	}
	if t.pk != nil {
		idx := make([]int, len(rows))
		for i := range idx {
			idx[i] = i
		}
		sort.SliceStable(idx, func(a, b int) bool {
			for _, c := range t.pk {
				if x := cmpVal(vals[idx[a]][c], vals[idx[b]][c]); x != 0 {
					return x < 0
				}
			}
			return false
		})
		r2, v2 := make([]*Row, len(rows)), make([][]any, len(rows))
		for i, j := range idx {
			r2[i], v2[i] = rows[j], vals[j]
		}
		rows, vals = r2, v2
	}
	return rows, vals, nil
}

func (ec *ectx) sortLimit(t *Table, st *stmt, rows []*Row, vals [][]any) ([]*Row, [][]any, error) {
	if len(st.order) > 0 {
		keys := make([][]any, len(vals))
		idx := make([]int, len(vals))
		for i, v := range vals {
			idx[i] = i
			ec.t, ec.row = t, v
			for _, o := range st.order {
				k, err := ec.eval(o.e)
				if err != nil {
					return nil, nil, err
				}
				keys[i] = append(keys[i], k)
			}
		}
		sort.SliceStable(idx, func(a, b int) bool {
			for j, o := range st.order {
				if x := cmpVal(keys[idx[a]][j], keys[idx[b]][j]); x != 0 {
					return (x < 0) != o.desc
				}
			}
			return false
		})
		r2, v2 := make([]*Row, len(rows)), make([][]any, len(vals))
		for i, j := range idx {
			r2[i], v2[i] = rows[j], vals[j]
		}
		rows, vals = r2, v2
	}
	lo, hi, err := ec.limits(st, len(rows))
	if err != nil {
		return nil, nil, err
	}
	return rows[lo:hi], vals[lo:hi], nil
}

func (ec *ectx) limits(st *stmt, n int) (int, int, error) {
	lo, hi := 0, n
	if st.offset != nil {
		v, err := ec.eval(st.offset)
		if err != nil {
			return 0, 0, err
		}
		lo = min(n, int(toInt(v)))
	}
	if st.limit != nil {
		v, err := ec.eval(st.limit)
		if err != nil {
			return 0, 0, err
		}
		hi = min(n, lo+int(toInt(v)))
	}
	return lo, hi, nil
}

var aggs = map[string]bool{"COUNT": true, "SUM": true, "MIN": true, "MAX": true, "AVG": true}

func hasAgg(e *expr) bool {
	if e == nil {
		return false
	}
	if e.k == eFunc && aggs[e.op] {
		return true
	}
	for _, a := range e.args {
		if hasAgg(a) {
			return true
		}
	}
	return false
}

func (tx *Tx) sel(st *stmt, ec *ectx) (*Result, error) {
	res := &Result{}
	if st.table == "" {
		var row []any
		for _, it := range st.items {
			v, err := ec.eval(it.e)
			if err != nil {
				return nil, err
			}
			row = append(row, v)
			res.Cols = append(res.Cols, it.name)
			res.ColTypes = append(res.ColTypes, nil)
		}
		res.Rows = [][]any{row}
		return res, nil
	}
	t := tx.db.table(st.table)
	locking := st.lock != lockNone
	rows, vals, err := tx.match(t, st, ec, locking)
	if err != nil {
		return nil, err
	}
	agg := len(st.group) > 0
	for _, it := range st.items {
		agg = agg || hasAgg(it.e)
	}
	for _, it := range st.items {
		if it.e.k == eStar {
			for i := range t.Cols {
				res.Cols = append(res.Cols, t.Cols[i].Name)
				res.ColTypes = append(res.ColTypes, &t.Cols[i])
			}
			continue
		}
		res.Cols = append(res.Cols, it.name)
		var ct *Col
		if it.e.k == eCol {
			i, ok := t.byName[it.e.op]
			if !ok {
				return nil, sqlErr(1054, "Unknown column '%s' in 'field list'", it.e.op)
			}
			ct = &t.Cols[i]
		}
		res.ColTypes = append(res.ColTypes, ct)
	}
	project := func() ([]any, error) {
		var out []any
		for _, it := range st.items {
			if it.e.k == eStar {
				out = append(out, ec.row...)
				continue
			}
			v, err := ec.eval(it.e)
			if err != nil {
				return nil, err
			}
			out = append(out, v)
		}
		return out, nil
	}
	if agg {
		if locking {
			for _, r := range rows {
				if st.lock == lockShare {
					tx.shareRow(r)
				} else {
					tx.lockRow(r)
				}
			}
		}
		type grp struct {
			key  string
			rows [][]any
		}
		var groups []*grp
		by := map[string]*grp{}
		for _, v := range vals {
			ec.t, ec.row = t, v
			var kb strings.Builder
			for _, g := range st.group {
				k, err := ec.eval(g)
				if err != nil {
					return nil, err
				}
				fmt.Fprintf(&kb, "%v\x00", fold(k))
			}
			g := by[kb.String()]
			if g == nil {
				g = &grp{key: kb.String()}
				by[g.key] = g
				groups = append(groups, g)
			}
			g.rows = append(g.rows, v)
		}
		if len(st.group) == 0 && len(groups) == 0 {
			groups = []*grp{{}}
		}
		type out struct {
			vals []any
			keys []any
		}
		var outs []out
		for _, g := range groups {
			ec.t, ec.grp, ec.inGrp = t, g.rows, true
			ec.row = make([]any, len(t.Cols))
			if len(g.rows) > 0 {
				ec.row = g.rows[0]
			}
			if st.having != nil {
				ok, err := ec.truth(st.having)
				if err != nil {
					return nil, err
				}
				if !ok {
					continue
				}
			}
			o, err := project()
			if err != nil {
				return nil, err
			}
			var keys []any
			for _, od := range st.order {
				k, err := ec.evalAlias(od.e, st, o)
				if err != nil {
					return nil, err
				}
				keys = append(keys, k)
			}
			outs = append(outs, out{o, keys})
		}
		ec.inGrp, ec.grp = false, nil
		if len(st.order) > 0 {
			sort.SliceStable(outs, func(a, b int) bool {
				for j, o := range st.order {
					if x := cmpVal(outs[a].keys[j], outs[b].keys[j]); x != 0 {
						return (x < 0) != o.desc
					}
				}
				return false
			})
		}
		lo, hi, err := ec.limits(st, len(outs))
		if err != nil {
			return nil, err
		}
		for _, o := range outs[lo:hi] {
			res.Rows = append(res.Rows, o.vals)
		}
		return res, nil
	}
	// without ORDER BY (and among equal keys) the server may return any order
	if f := tx.db.Shuffle; f != nil && len(vals) > 1 {
		if p := f(len(vals)); p != nil {
			r2, v2 := make([]*Row, len(rows)), make([][]any, len(vals))
			for i, j := range p {
				r2[i], v2[i] = rows[j], vals[j]
			}
			rows, vals = r2, v2
		}
	}
	rows, vals, err = ec.sortLimit(t, st, rows, vals)
	if err != nil {
		return nil, err
	}
	seen := map[string]bool{}
	for i, v := range vals {
		if locking && st.lock == lockShare {
			tx.shareRow(rows[i])
		} else if locking {
			tx.lockRow(rows[i])
		}
		ec.t, ec.row = t, v
		o, err := project()
		if err != nil {
			return nil, err
		}
		if st.distinct {
			k := fmt.Sprintf("%v", o)
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		res.Rows = append(res.Rows, o)
	}
	return res, nil
}

func (ec *ectx) evalAlias(e *expr, st *stmt, out []any) (any, error) {
	if e.k == eCol {
		for i, it := range st.items {
			if strings.EqualFold(it.name, e.op) && i < len(out) {
				return out[i], nil
			}
		}
	}
	return ec.eval(e)
}

func (t *Table) keyOf(ix index, v []any) ([]any, bool) {
	k := make([]any, len(ix.cols))
	for i, c := range ix.cols {
		if v[c] == nil {
			return nil, false
		}
		k[i] = v[c]
	}
	return k, true
}

func sameKey(t *Table, ix index, k []any, v []any) bool {
	for i, c := range ix.cols {
		if v[c] == nil || cmpVal(k[i], v[c]) != 0 {
			return false
		}
	}
	return true
}

// conflict finds the row that holds a unique key of vals, if any.
func (tx *Tx) conflict(t *Table, vals []any, self *Row) (*Row, index, error) {
	for _, ix := range t.uniques {
		k, ok := t.keyOf(ix, vals)
		if !ok {
			continue
		}
		for _, r := range t.rows {
			if r == self {
				continue
			}
			if r.lock != nil && r.lock != tx {
				com, pend := r.committed(), r.pend
				if com != nil && sameKey(t, ix, k, com) || r.hasPend && pend != nil && sameKey(t, ix, k, pend) {
					return nil, ix, tx.waitOn(r.lock)
				}
				continue
			}
			v := tx.view(r, true)
			if v != nil && sameKey(t, ix, k, v) {
				return r, ix, nil
			}
		}
	}
	return nil, index{}, nil
}

func (tx *Tx) insert(st *stmt, ec *ectx) (*Result, error) {
	t := tx.db.table(st.table)
	res := &Result{}
	cols := make([]int, 0, len(st.cols))
	for _, c := range st.cols {
		i, ok := t.byName[c]
		if !ok {
			return nil, sqlErr(1054, "Unknown column '%s' in 'field list'", c)
		}
		cols = append(cols, i)
	}
	if len(st.cols) == 0 {
		for i := range t.Cols {
			cols = append(cols, i)
		}
	}
	startAuto := t.autoInc
	for _, row := range st.rows {
		vals := make([]any, len(t.Cols))
		given := make([]bool, len(t.Cols))
		if len(row) != 0 && len(row) != len(cols) {
			return nil, sqlErr(1136, "Column count doesn't match value count at row 1")
		}
		for i, e := range row {
			if e.k == eDefault {
				continue
			}
			ec.t, ec.row = t, vals
			v, err := ec.eval(e)
			if err != nil {
				return nil, err
			}
			vals[cols[i]] = v
			given[cols[i]] = true
		}
		genID := int64(0)
		for i := range t.Cols {
			c := &t.Cols[i]
			if c.AutoInc && (!given[i] || vals[i] == nil || toInt(vals[i]) == 0) {
				genID = t.autoInc
				vals[i] = t.autoInc
				t.autoInc++
				continue
			}
			if !given[i] {
				if c.HasDef {
					vals[i] = c.Def
				} else if c.NotNull {
					return nil, sqlErr(1364, "Field '%s' doesn't have a default value", c.Name)
				}
				continue
			}
			v, err := c.store(vals[i])
			if err != nil {
				return nil, err
			}
			vals[i] = v
			if c.AutoInc && toInt(v) >= t.autoInc {
				t.autoInc = toInt(v) + 1
			}
		}
		old, ix, err := tx.conflict(t, vals, nil)
		if err != nil {
			if err == ErrWait {
				t.autoInc = startAuto // the statement is retried as a whole
			}
			return nil, err
		}
		if old != nil {
			if len(st.onDup) > 0 {
				if other := old.blocker(tx, false); other != nil {
					err := tx.waitOn(other)
					if err == ErrWait {
						t.autoInc = startAuto
					}
					return nil, err
				}
				tx.lockRow(old)
				cur := tx.view(old, true)
				nv := append([]any(nil), cur...)
				for _, a := range st.onDup {
					i, ok := t.byName[a.col]
					if !ok {
						return nil, sqlErr(1054, "Unknown column '%s' in 'field list'", a.col)
					}
					ec.t, ec.row, ec.ins = t, nv, vals
					v, err := ec.eval(a.e)
					ec.ins = nil
					if err != nil {
						return nil, err
					}
					if nv[i], err = t.Cols[i].store(v); err != nil {
						return nil, err
					}
				}
				if !equalVals(cur, nv) {
					o2, ix2, err := tx.conflict(t, nv, old)
					if err != nil {
						return nil, err
					}
					if o2 != nil {
						return nil, dup(t, ix2, nv)
					}
					tx.write(old, nv, false)
					res.Affected += 2
				}
				if t.autoCol >= 0 && res.LastID == 0 {
					res.LastID = toInt(nv[t.autoCol])
				}
				continue
			}
			if st.ignore {
				continue
			}
			tx.db.Stats.DupKey++
			return nil, dup(t, ix, vals)
		}
		t.nextID++
		r := &Row{t: t, id: t.nextID}
		t.rows = append(t.rows, r)
		tx.lockRow(r)
		tx.write(r, vals, true)
		res.Affected++
		if genID != 0 && res.LastID == 0 {
			res.LastID = genID
		}
	}
	return res, nil
}

func dup(t *Table, ix index, vals []any) error {
	var parts []string
	for _, c := range ix.cols {
		parts = append(parts, fmt.Sprint(vals[c]))
	}
	return sqlErr(1062, "Duplicate entry '%s' for key '%s.%s'", strings.Join(parts, "-"), t.Name, ix.name)
}

func equalVals(a, b []any) bool {
	for i := range a {
		if (a[i] == nil) != (b[i] == nil) {
			return false
		}
		if a[i] == nil {
			continue
		}
		switch x := a[i].(type) {
		case time.Time:
			y, ok := b[i].(time.Time)
			if !ok || !x.Equal(y) {
				return false
			}
		default:
			if a[i] != b[i] {
				return false
			}
		}
	}
	return true
}

func (tx *Tx) update(st *stmt, ec *ectx) (*Result, error) {
	t := tx.db.table(st.table)
	rows, vals, err := tx.match(t, st, ec, true)
	if err != nil {
		return nil, err
	}
	rows, vals, err = ec.sortLimit(t, st, rows, vals)
	if err != nil {
		return nil, err
	}
	res := &Result{}
	for i, r := range rows {
		tx.lockRow(r)
		nv := append([]any(nil), vals[i]...)
		for _, a := range st.set {
			ci, ok := t.byName[a.col]
			if !ok {
				return nil, sqlErr(1054, "Unknown column '%s' in 'field list'", a.col)
			}
			ec.t, ec.row = t, nv
			if a.e.k == eDefault {
				nv[ci] = t.Cols[ci].Def
				continue
			}
			v, err := ec.eval(a.e)
			if err != nil {
				return nil, err
			}
			if nv[ci], err = t.Cols[ci].store(v); err != nil {
				return nil, err
			}
		}
		if equalVals(vals[i], nv) {
			continue
		}
		o2, ix2, err := tx.conflict(t, nv, r)
		if err != nil {
			return nil, err
		}
		if o2 != nil {
			tx.db.Stats.DupKey++
			return nil, dup(t, ix2, nv)
		}
		tx.write(r, nv, false)
		res.Affected++
	}
	return res, nil
}

func (tx *Tx) del(st *stmt, ec *ectx) (*Result, error) {
	t := tx.db.table(st.table)
	rows, vals, err := tx.match(t, st, ec, true)
	if err != nil {
		return nil, err
	}
	rows, _, err = ec.sortLimit(t, st, rows, vals)
	if err != nil {
		return nil, err
	}
	for _, r := range rows {
		tx.lockRow(r)
		tx.write(r, nil, false)
	}
	return &Result{Affected: int64(len(rows))}, nil
}

// store converts a value to the column's type with MySQL's strict-mode rules.
func (c *Col) store(v any) (any, error) {
	if v == nil {
		if c.NotNull {
			return nil, sqlErr(1048, "Column '%s' cannot be null", c.Name)
		}
		return nil, nil
	}
	switch c.Kind {
	case KInt:
		var n int64
		switch x := v.(type) {
		case int64:
			n = x
		case float64:
			n = int64(math.Round(x))
		case string:
			f, err := strconv.ParseFloat(strings.TrimSpace(x), 64)
			if err != nil {
				return nil, sqlErr(1366, "Incorrect integer value: '%s' for column '%s' at row 1", x, c.Name)
			}
			n = int64(math.Round(f))
		default:
			return nil, sqlErr(1366, "Incorrect integer value for column '%s'", c.Name)
		}
		if c.Size > 0 && c.Size < 64 {
			lo, hi := -(int64(1) << (c.Size - 1)), int64(1)<<(c.Size-1)-1
			if c.Unsign {
				lo, hi = 0, int64(1)<<c.Size-1
			}
			if n < lo || n > hi {
				return nil, sqlErr(1264, "Out of range value for column '%s' at row 1", c.Name)
			}
		}
		return n, nil
	case KFloat:
		switch x := v.(type) {
		case int64:
			return float64(x), nil
		case float64:
			return x, nil
		case string:
			f, err := strconv.ParseFloat(strings.TrimSpace(x), 64)
			if err != nil {
				return nil, sqlErr(1366, "Incorrect decimal value: '%s' for column '%s'", x, c.Name)
			}
			return f, nil
		}
	case KStr, KBytes:
		var s string
		switch x := v.(type) {
		case string:
			s = x
		case int64:
			s = strconv.FormatInt(x, 10)
		case float64:
			s = strconv.FormatFloat(x, 'g', -1, 64)
		case time.Time:
			s = x.Format("2006-01-02 15:04:05.999999")
		}
		if c.Text && !utf8.ValidString(s) {
			return nil, sqlErr(1366, "Incorrect string value for column '%s' at row 1", c.Name)
		}
		if c.Size > 0 {
			n := len(s)
			if c.Kind == KStr && c.Size < 65535 {
				n = len([]rune(s))
			}
			if n > c.Size {
				return nil, sqlErr(1406, "Data too long for column '%s' at row 1", c.Name)
			}
		}
		return s, nil
	case KTime:
		t, ok := toTime(v)
		if !ok {
			return nil, sqlErr(1292, "Incorrect datetime value: '%v' for column '%s' at row 1", v, c.Name)
		}
		if t.IsZero() {
			return nil, sqlErr(1292, "Incorrect datetime value: '0000-00-00' for column '%s' at row 1", c.Name)
		}
		return roundTime(t, c.Prec), nil
	}
	return nil, sqlErr(1366, "Incorrect value for column '%s'", c.Name)
}

func roundTime(t time.Time, prec int) time.Time {
	d := time.Second
	for i := 0; i < prec; i++ {
		d /= 10
	}
	return t.UTC().Round(d)
}

func toTime(v any) (time.Time, bool) {
	switch x := v.(type) {
	case time.Time:
		return x, true
	case string:
		for _, f := range []string{"2006-01-02 15:04:05.999999999Z07:00", "2006-01-02 15:04:05.999999999", "2006-01-02T15:04:05.999999999Z07:00", "2006-01-02"} {
			if t, err := time.Parse(f, x); err == nil {
				return t.UTC(), true
			}
		}
	}
	return time.Time{}, false
}

func toInt(v any) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case float64:
		return int64(math.Round(x))
	case string:
		f, _ := strconv.ParseFloat(strings.TrimSpace(x), 64)
		return int64(f)
	}
	return 0
}

func toFloat(v any) float64 {
	switch x := v.(type) {
	case int64:
		return float64(x)
	case float64:
		return x
	case string:
		s := strings.TrimSpace(x)
		for n := len(s); n > 0; n-- {
			if f, err := strconv.ParseFloat(s[:n], 64); err == nil {
				return f
			}
		}
	}
	return 0
}

func fold(v any) any {
	if s, ok := v.(string); ok {
		return strings.ToLower(s)
	}
	return v
}

// cmpVal orders two values; NULLs sort first. Strings compare like a
// case-insensitive collation.
func cmpVal(a, b any) int {
	if a == nil || b == nil {
		switch {
		case a == nil && b == nil:
			return 0
		case a == nil:
			return -1
		}
		return 1
	}
	at, aIsT := a.(time.Time)
	bt, bIsT := b.(time.Time)
	if aIsT || bIsT {
		ok1, ok2 := aIsT, bIsT
		if !aIsT {
			at, ok1 = toTime(a)
		}
		if !bIsT {
			bt, ok2 = toTime(b)
		}
		if ok1 && ok2 {
			return at.Compare(bt)
		}
		return strings.Compare(fmt.Sprint(a), fmt.Sprint(b))
	}
	as, aIsS := a.(string)
	bs, bIsS := b.(string)
	if aIsS && bIsS {
		if as == bs {
			return 0
		}
		return strings.Compare(strings.ToLower(as), strings.ToLower(bs))
	}
	if ai, ok := a.(int64); ok {
		if bi, ok := b.(int64); ok {
			switch {
			case ai < bi:
				return -1
			case ai > bi:
				return 1
			}
			return 0
		}
	}
	af, bf := toFloat(a), toFloat(b)
	switch {
	case af < bf:
		return -1
	case af > bf:
		return 1
	}
	return 0
}

// Sees reports whether the transaction sees a row of the table whose id column is id,
// its own changes included.
func (tx *Tx) Sees(table, id string) bool {
	t := tx.db.table(table)
	c, ok := t.byName["id"]
	for _, r := range t.rows {
		if v := tx.view(r, true); ok && v != nil && v[c] == id {
			return true
		}
	}
	return false
}
