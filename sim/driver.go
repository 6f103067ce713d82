package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"io"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"

	mysqldrv "github.com/go-sql-driver/mysql"
	gmysql "gorm.io/driver/mysql"
	"gorm.io/gorm"
	glogger "gorm.io/gorm/logger"
	"gorm.io/gorm/schema"

	"vsim/simdb"
)

// The database/sql driver of the simulation: every round trip to the server is
// one scheduler operation.

type connector struct{ w *World }

type simDriver struct{}

func (simDriver) Open(string) (driver.Conn, error) { return nil, errors.New("use the connector") }

func (c *connector) Driver() driver.Driver { return simDriver{} }

func (c *connector) Connect(ctx context.Context) (driver.Conn, error) {
	w, n, _ := self()
	cn := &conn{w: w, n: n, inc: n.inc}
	v := w.park(ctx, &op{kind: "connect", desc: "connect", exec: func(*op) (any, error) { return nil, nil },
		fail: func(o *op, kind string) error {
			switch kind {
			case "deadlock", "lock-timeout", "sql-error":
				return nil
			}
			return errors.New("dial tcp: connection refused")
		}})
	if v.err != nil {
		return nil, v.err
	}
	return cn, nil
}

type conn struct {
	w    *World
	n    *Node
	inc  int
	tx   *simdb.Tx
	auto *simdb.Tx // a waiting autocommit statement
	dead bool
	last string // shape of the last statement
}

// shape is the statement without its list lengths.
func shape(q string) string {
	if len(q) > 400 {
		q = q[:400]
	}
	for {
		r := strings.ReplaceAll(q, "?,?", "?")
		r = strings.ReplaceAll(r, "(?),(?)", "(?)")
		if r == q {
			return q
		}
		q = r
	}
}

func (w *World) killConns(node, inc int) {
	for c := range w.openTxs {
		if c.n.idx == node && c.inc == inc {
			w.serverDrop(c)
		}
	}
}

// serverDrop makes the server notice that the connection is gone.
func (w *World) serverDrop(c *conn) {
	delete(w.openTxs, c)
	if c.auto != nil {
		c.auto.Rollback()
		c.auto = nil
	}
	if c.tx != nil {
		tx := c.tx
		c.tx = nil
		if !tx.Done {
			w.Log("server rolls back an abandoned transaction of %s", c.n.name)
			tx.Rollback()
		}
	}
}

// lose breaks the connection now; the server finds out after a while.
func (c *conn) lose() {
	c.dead = true
	if c.tx != nil {
		w := c.w
		d := time.Duration(w.F.N(5)) * 200 * time.Millisecond
		w.At(d, func() { w.serverDrop(c) })
	}
}

// locks: InnoDB aborts only statements that lock rows.
func (o *op) locks() bool {
	switch o.kind {
	case "commit", "rollback", "begin", "SAVEPOINT", "ROLLBACK", "RELEASE":
		return false
	}
	return o.write
}

func (c *conn) fail(o *op, kind string) error {
	switch kind {
	case "deadlock":
		if !o.locks() {
			return nil
		}
		if c.tx != nil {
			c.tx.Doomed = true
			c.tx.Rollback()
		}
		return &mysqldrv.MySQLError{Number: 1213, Message: "Deadlock found when trying to get lock; try restarting transaction"}
	case "lock-timeout":
		if !o.locks() {
			return nil
		}
		return simdb.LockWaitTimeout()
	case "sql-error": // only the statement fails, connection and transaction live on
		switch o.kind {
		case "SELECT":
			return &mysqldrv.MySQLError{Number: 3024, Message: "Query execution was interrupted, maximum statement execution time exceeded"}
		case "INSERT", "UPDATE":
			return &mysqldrv.MySQLError{Number: 1114, Message: "The table is full"}
		case "DELETE":
			return &mysqldrv.MySQLError{Number: 1317, Message: "Query execution was interrupted"}
		}
		return nil
	case "lock-wait-timeout":
		if c.tx != nil {
			c.tx.WaitFor = nil
		}
		return simdb.LockWaitTimeout()
	case "busy":
		return nil
	}
	c.lose()
	return mysqldrv.ErrInvalidConn
}

func (c *conn) do(ctx context.Context, kind, q, desc string, write bool, exec func(o *op) (any, error)) (any, error) {
	if c.dead {
		return nil, driver.ErrBadConn
	}
	o := &op{kind: kind, desc: desc, exec: exec, fail: c.fail, write: write}
	if c.w.fault.focus != 0 {
		switch kind {
		case "begin", "rollback":
			o.site = kind
		case "commit":
			o.site = kind + " after " + c.last
		default:
			c.last = shape(q)
			o.site = c.last
		}
	}
	v := c.w.park(ctx, o)
	if ctx != nil && ctx.Err() != nil && v.err == ctx.Err() {
		c.lose()
	}
	if v.err != nil && c.w.onSQLErr != nil {
		c.w.onSQLErr(tagCmd(runtime.SimTag()), v.err)
	}
	return v.res, v.err
}

func (c *conn) Prepare(q string) (driver.Stmt, error) { return &stmt{c, q}, nil }

func (c *conn) Close() error {
	if !c.dead {
		c.dead = true
		if c.tx != nil {
			c.w.serverDrop(c)
		}
	}
	return nil
}

func (c *conn) Begin() (driver.Tx, error) { return c.BeginTx(context.Background(), driver.TxOptions{}) }

func (c *conn) BeginTx(ctx context.Context, opts driver.TxOptions) (driver.Tx, error) {
	tag := runtime.SimTag()
	_, err := c.do(ctx, "begin", "", "BEGIN", false, func(*op) (any, error) {
		c.tx = c.w.db.Begin(tag)
		c.w.openTxs[c] = struct{}{}
		return nil, nil
	})
	if err != nil {
		return nil, err
	}
	return &txn{c}, nil
}

type txn struct{ c *conn }

func (t *txn) Commit() error {
	c := t.c
	_, err := c.do(nil, "commit", "", "COMMIT", true, func(o *op) (any, error) {
		if c.tx != nil {
			c.tx.Commit()
		}
		delete(c.w.openTxs, c)
		c.tx = nil
		return nil, nil
	})
	return err
}

func (t *txn) Rollback() error {
	c := t.c
	if c.dead {
		return driver.ErrBadConn
	}
	_, err := c.do(nil, "rollback", "", "ROLLBACK", false, func(o *op) (any, error) {
		if c.tx != nil {
			c.tx.Rollback()
		}
		delete(c.w.openTxs, c)
		c.tx = nil
		return nil, nil
	})
	return err
}

func shortSQL(q string, args []driver.NamedValue) string {
	var sb strings.Builder
	if len(q) > 160 {
		q = q[:160] + "..."
	}
	sb.WriteString(q)
	if len(args) > 0 {
		sb.WriteString(" [")
		for i, a := range args {
			if i > 0 {
				sb.WriteString(" ")
			}
			s := ""
			switch x := a.Value.(type) {
			case []byte:
				s = string(x)
			case time.Time:
				s = x.UTC().Format("15:04:05.000000")
			default:
				s = toStr(x)
			}
			if i := strings.Index(s, "stack:"); i >= 0 {
				s = s[:i] // goroutine numbers and addresses
			}
			if len(s) > 40 {
				s = s[:40] + "~"
			}
			sb.WriteString(s)
			if i > 24 {
				sb.WriteString(" ...")
				break
			}
		}
		sb.WriteString("]")
	}
	return sb.String()
}

func (c *conn) run(ctx context.Context, q string, nargs []driver.NamedValue) (*simdb.Result, error) {
	args := make([]any, len(nargs))
	for i, a := range nargs {
		switch x := a.Value.(type) {
		case time.Time:
			if x.IsZero() {
				args[i] = x
			} else {
				args[i] = x.UTC().Round(time.Microsecond)
			}
		case []byte:
			if x == nil {
				args[i] = nil
			} else {
				args[i] = string(x)
			}
		case bool:
			args[i] = int64(0)
			if x {
				args[i] = int64(1)
			}
		case uint64:
			args[i] = int64(x)
		default:
			args[i] = x
		}
	}
	tag := runtime.SimTag()
	head := strings.ToUpper(strings.TrimSpace(q))
	write := !strings.HasPrefix(head, "SELECT") || strings.Contains(head, "FOR UPDATE")
	kind := head
	if i := strings.IndexByte(kind, ' '); i > 0 {
		kind = kind[:i]
	}
	res, err := c.do(ctx, kind, q, shortSQL(q, nargs), write, func(o *op) (any, error) {
		tx := c.tx
		if c.w.onStmt != nil && o.waitAt == 0 {
			c.w.onStmt(tag, q, args)
		}
		if tx == nil {
			if c.auto == nil {
				c.auto = c.w.db.Begin(tag)
				c.auto.SetAuto()
				c.w.openTxs[c] = struct{}{}
			}
			auto := c.auto
			r, err := auto.Exec(q, args)
			if err == simdb.ErrWait {
				return nil, err
			}
			if err != nil {
				auto.Rollback()
			} else {
				auto.Commit()
			}
			c.auto = nil
			delete(c.w.openTxs, c)
			return r, err
		}
		if tx.Done {
			// the server already rolled the transaction back (deadlock victim):
			// the statement runs in autocommit mode
			tx = c.w.db.Begin(tag)
			tx.SetAuto()
			r, err := tx.Exec(q, args)
			if err == simdb.ErrWait {
				tx.Rollback()
				return nil, simdb.LockWaitTimeout()
			}
			if err != nil {
				tx.Rollback()
			} else {
				tx.Commit()
			}
			return r, err
		}
		return tx.Exec(q, args)
	})
	if c.auto != nil {
		c.auto.Rollback()
		c.auto = nil
		delete(c.w.openTxs, c)
	}
	if err != nil {
		return nil, err
	}
	r, _ := res.(*simdb.Result)
	if r == nil {
		r = &simdb.Result{}
	}
	return r, nil
}

func (c *conn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	r, err := c.run(ctx, q, args)
	if err != nil {
		return nil, err
	}
	return result{r}, nil
}

func (c *conn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	r, err := c.run(ctx, q, args)
	if err != nil {
		return nil, err
	}
	return &rows{r: r}, nil
}

func (c *conn) IsValid() bool { return !c.dead }

func (c *conn) ResetSession(ctx context.Context) error {
	if c.dead {
		return driver.ErrBadConn
	}
	return nil
}

type stmt struct {
	c *conn
	q string
}

func (s *stmt) Close() error  { return nil }
func (s *stmt) NumInput() int { return -1 }
func (s *stmt) Exec(args []driver.Value) (driver.Result, error) {
	return s.c.ExecContext(context.Background(), s.q, named(args))
}
func (s *stmt) Query(args []driver.Value) (driver.Rows, error) {
	return s.c.QueryContext(context.Background(), s.q, named(args))
}
func named(args []driver.Value) []driver.NamedValue {
	out := make([]driver.NamedValue, len(args))
	for i, a := range args {
		out[i] = driver.NamedValue{Ordinal: i + 1, Value: a}
	}
	return out
}

type result struct{ r *simdb.Result }

func (r result) LastInsertId() (int64, error) { return r.r.LastID, nil }
func (r result) RowsAffected() (int64, error) { return r.r.Affected, nil }

type rows struct {
	r *simdb.Result
	i int
}

func (r *rows) Columns() []string { return r.r.Cols }
func (r *rows) Close() error      { return nil }
func (r *rows) Next(dest []driver.Value) error {
	if r.i >= len(r.r.Rows) {
		return io.EOF
	}
	for j, v := range r.r.Rows[r.i] {
		switch x := v.(type) {
		case string:
			dest[j] = []byte(x)
		default:
			dest[j] = x
		}
	}
	r.i++
	return nil
}

// ColumnTypeDatabaseName and ScanType let gorm pick destinations for untyped scans.
func (r *rows) ColumnTypeDatabaseTypeName(i int) string {
	if ct := r.r.ColTypes[i]; ct != nil {
		switch ct.Kind {
		case simdb.KInt:
			return "BIGINT"
		case simdb.KTime:
			return "DATETIME"
		case simdb.KFloat:
			return "DOUBLE"
		}
	}
	return "TEXT"
}

// openGorm gives a node its own database handle, as gorm.Open would.
func openGorm(w *World) *gorm.DB {
	sdb := sql.OpenDB(&connector{w})
	db, err := gorm.Open(gmysql.New(gmysql.Config{Conn: sdb, SkipInitializeWithVersion: true}), &gorm.Config{
		Logger:               glogger.Discard,
		DisableAutomaticPing: true,
	})
	if err != nil {
		panic(err)
	}
	return db
}

var schemaCache sync.Map
var tableDefs = map[reflect.Type]func(db *simdb.DB){}

// createTable adds the table that gorm's AutoMigrate would create for model.
func createTable(db *simdb.DB, model any) {
	t := reflect.TypeOf(model)
	if f, ok := tableDefs[t]; ok {
		f(db)
		return
	}
	s, err := schema.Parse(model, &schemaCache, schema.NamingStrategy{})
	if err != nil {
		panic(err)
	}
	prec := 3
	dial := gmysql.Dialector{Config: &gmysql.Config{DefaultDatetimePrecision: &prec}}
	var cols []simdb.Col
	var pk []string
	var uniq [][]string
	for _, name := range s.DBNames {
		f := s.FieldsByDBName[name]
		c := simdb.Col{Name: name, NotNull: f.NotNull || f.PrimaryKey, AutoInc: f.AutoIncrement}
		dt := strings.ToLower(dial.DataTypeOf(f))
		base, n := dt, 0
		if i := strings.IndexByte(dt, '('); i > 0 {
			base = dt[:i]
			for _, ch := range dt[i+1:] {
				if ch < '0' || ch > '9' {
					break
				}
				n = n*10 + int(ch-'0')
			}
		} else if i := strings.IndexByte(dt, ' '); i > 0 {
			base = dt[:i]
		}
		c.Unsign = strings.Contains(dt, "unsigned")
		switch base {
		case "tinyint", "boolean":
			c.Kind, c.Size = simdb.KInt, 8
		case "smallint":
			c.Kind, c.Size = simdb.KInt, 16
		case "mediumint", "int":
			c.Kind, c.Size = simdb.KInt, 32
		case "bigint":
			c.Kind, c.Size = simdb.KInt, 64
		case "float", "double":
			c.Kind = simdb.KFloat
		case "varchar", "char":
			c.Kind, c.Size, c.Text = simdb.KStr, n, true
		case "text":
			c.Kind, c.Size, c.Text = simdb.KBytes, 65535, true
		case "longtext", "json", "mediumtext":
			c.Kind, c.Text = simdb.KBytes, true
		case "longblob", "blob", "varbinary":
			c.Kind = simdb.KBytes
		case "datetime", "timestamp":
			c.Kind, c.Prec = simdb.KTime, n
		default:
			panic("createTable: type " + dt)
		}
		if f.HasDefaultValue && !f.AutoIncrement && f.DefaultValue != "" && f.DefaultValue != "(-)" {
			c.HasDef = true
			switch c.Kind {
			case simdb.KTime:
				tm, err := time.Parse("2006-01-02 15:04:05-07:00", strings.Trim(f.DefaultValue, "'"))
				if err != nil {
					panic(err)
				}
				c.Def = tm.UTC()
			case simdb.KInt:
				v := int64(0)
				for _, ch := range f.DefaultValue {
					v = v*10 + int64(ch-'0')
				}
				c.Def = v
			default:
				c.Def = strings.Trim(f.DefaultValue, "'")
			}
		}
		cols = append(cols, c)
		if f.PrimaryKey {
			pk = append(pk, name)
		}
		if f.Unique {
			uniq = append(uniq, []string{name})
		}
	}
	for _, ix := range s.ParseIndexes() {
		if ix.Class == "UNIQUE" {
			var u []string
			for _, f := range ix.Fields {
				u = append(u, f.DBName)
			}
			uniq = append(uniq, u)
		}
	}
	tbl := s.Table
	mk := func(db *simdb.DB) { db.AddTable(tbl, cols, pk, uniq) }
	tableDefs[t] = mk
	mk(db)
}
