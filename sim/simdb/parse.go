// Package simdb is a small in-memory model of a MySQL/InnoDB server: enough SQL
// for the repository's gorm statements, with transactions, MVCC snapshots, row
// locks, unique keys and MySQL's value rounding. It never blocks: a statement
// that would wait for a row lock returns ErrWait and is retried by the caller.
package simdb

import (
	"fmt"
	"strconv"
	"strings"
)

// Unsupported is panicked when a statement is outside the modelled dialect. The
// harness turns it into an error exit, never into a verdict.
type Unsupported struct{ Msg string }

func (u Unsupported) Error() string { return "simdb: unsupported: " + u.Msg }

func unsupported(f string, a ...any) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

type tokKind uint8

const (
	tEOF tokKind = iota
	tIdent
	tQIdent
	tNum
	tStr
	tParam
	tOp
)

type token struct {
	k tokKind
	s string // upper-cased for bare identifiers in u
	u string
}

func lex(sql string) []token {
	var out []token
	i := 0
	for i < len(sql) {
		c := sql[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '`':
			j := i + 1
			var sb strings.Builder
			for j < len(sql) {
				if sql[j] == '`' {
					if j+1 < len(sql) && sql[j+1] == '`' {
						sb.WriteByte('`')
						j += 2
						continue
					}
					break
				}
				sb.WriteByte(sql[j])
				j++
			}
			out = append(out, token{tQIdent, sb.String(), ""})
			i = j + 1
		case c == '\'' || c == '"':
			j := i + 1
			var sb strings.Builder
			for j < len(sql) {
				if sql[j] == '\\' && j+1 < len(sql) {
					j++
					switch sql[j] {
					case 'n':
						sb.WriteByte('\n')
					case 't':
						sb.WriteByte('\t')
					case '0':
						sb.WriteByte(0)
					default:
						sb.WriteByte(sql[j])
					}
					j++
					continue
				}
				if sql[j] == c {
					if j+1 < len(sql) && sql[j+1] == c {
						sb.WriteByte(c)
						j += 2
						continue
					}
					break
				}
				sb.WriteByte(sql[j])
				j++
			}
			out = append(out, token{tStr, sb.String(), ""})
			i = j + 1
		case c == '?':
			out = append(out, token{tParam, "?", ""})
			i++
		case c >= '0' && c <= '9':
			j := i
			for j < len(sql) && (sql[j] >= '0' && sql[j] <= '9' || sql[j] == '.' || sql[j] == 'e' || sql[j] == 'E') {
				j++
			}
			out = append(out, token{tNum, sql[i:j], ""})
			i = j
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '@':
			j := i
			for j < len(sql) && (sql[j] == '_' || sql[j] >= 'a' && sql[j] <= 'z' || sql[j] >= 'A' && sql[j] <= 'Z' || sql[j] >= '0' && sql[j] <= '9' || sql[j] == '@') {
				j++
			}
			out = append(out, token{tIdent, sql[i:j], strings.ToUpper(sql[i:j])})
			i = j
		case c == '/' && i+1 < len(sql) && sql[i+1] == '*':
			j := strings.Index(sql[i+2:], "*/")
			if j < 0 {
				unsupported("comment in %q", sql)
			}
			i += j + 4
		default:
			for _, op := range []string{"<=>", "<>", "!=", "<=", ">=", "||", "&&"} {
				if strings.HasPrefix(sql[i:], op) {
					out = append(out, token{tOp, op, op})
					i += len(op)
					goto next
				}
			}
			out = append(out, token{tOp, string(c), string(c)})
			i++
		next:
		}
	}
	return append(out, token{tEOF, "", ""})
}

type exprKind uint8

const (
	eLit exprKind = iota
	eParam
	eCol
	eBin
	eNot
	eNeg
	eIn
	eIsNull
	eLike
	eBetween
	eFunc
	eTuple
	eStar
	eDefault
	eCase
	eSub
	eExists
)

type expr struct {
	k    exprKind
	op   string // operator / function / column
	tbl  string
	lit  any
	n    int // parameter index
	neg  bool
	args []*expr
	dist bool
	sub  *stmt
}

type selItem struct {
	e    *expr
	name string
}

type orderItem struct {
	e    *expr
	desc bool
}

type assign struct {
	col string
	e   *expr
}

type stmtKind uint8

const (
	sSelect stmtKind = iota
	sInsert
	sUpdate
	sDelete
	sSavepoint
	sRollbackTo
	sRelease
	sBegin
	sCommit
	sRollback
	sNoop
)

type lockMode uint8

const (
	lockNone lockMode = iota
	lockShare
	lockUpdate
)

type stmt struct {
	kind     stmtKind
	table    string
	alias    string
	items    []selItem
	distinct bool
	where    *expr
	group    []*expr
	having   *expr
	order    []orderItem
	limit    *expr
	offset   *expr
	lock     lockMode
	nowait   bool
	skip     bool
	cols     []string
	rows     [][]*expr
	ignore   bool
	onDup    []assign
	set      []assign
	name     string
	params   int
	sql      string
}

type parser struct {
	toks []token
	i    int
	np   int
	sql  string
}

func (p *parser) peek() token { return p.toks[p.i] }
func (p *parser) next() token { t := p.toks[p.i]; p.i++; return t }
func (p *parser) kw(s string) bool {
	if t := p.peek(); t.k == tIdent && t.u == s {
		p.i++
		return true
	}
	return false
}
func (p *parser) isKw(s string) bool { t := p.peek(); return t.k == tIdent && t.u == s }
func (p *parser) op(s string) bool {
	if t := p.peek(); t.k == tOp && t.s == s {
		p.i++
		return true
	}
	return false
}
func (p *parser) must(s string) {
	if !p.kw(s) && !p.op(s) {
		unsupported("expected %s near token %d (%q) in %q", s, p.i, p.peek().s, p.sql)
	}
}
func (p *parser) ident() string {
	t := p.next()
	if t.k != tIdent && t.k != tQIdent {
		unsupported("expected identifier, got %q in %q", t.s, p.sql)
	}
	return t.s
}

var parseCache = map[string]*stmt{}

// ParseSQL parses one statement (cached per process: the AST is immutable).
func ParseSQL(sql string) *stmt {
	if s, ok := parseCache[sql]; ok {
		return s
	}
	p := &parser{toks: lex(sql), sql: sql}
	s := p.stmt()
	p.op(";")
	if p.peek().k != tEOF {
		unsupported("trailing %q in %q", p.peek().s, sql)
	}
	s.params = p.np
	s.sql = sql
	if len(parseCache) > 4096 {
		parseCache = map[string]*stmt{}
	}
	parseCache[sql] = s
	return s
}

func (p *parser) stmt() *stmt {
	t := p.next()
	switch t.u {
	case "SELECT":
		return p.selectStmt()
	case "INSERT", "REPLACE":
		if t.u == "REPLACE" {
			unsupported("REPLACE in %q", p.sql)
		}
		s := &stmt{kind: sInsert}
		if p.kw("IGNORE") {
			s.ignore = true
		}
		p.must("INTO")
		s.table = p.tableName()
		if p.op("(") {
			for !p.op(")") {
				s.cols = append(s.cols, p.colName())
				p.op(",")
			}
		}
		if !p.kw("VALUES") && !p.kw("VALUE") {
			unsupported("insert without VALUES: %q", p.sql)
		}
		for {
			p.must("(")
			var row []*expr
			for !p.op(")") {
				row = append(row, p.expr())
				p.op(",")
			}
			s.rows = append(s.rows, row)
			if !p.op(",") {
				break
			}
		}
		if p.kw("ON") {
			p.must("DUPLICATE")
			p.must("KEY")
			p.must("UPDATE")
			s.onDup = p.assigns()
		}
		return s
	case "UPDATE":
		s := &stmt{kind: sUpdate}
		s.table = p.tableName()
		p.must("SET")
		s.set = p.assigns()
		p.tail(s)
		return s
	case "DELETE":
		s := &stmt{kind: sDelete}
		p.must("FROM")
		s.table = p.tableName()
		p.tail(s)
		return s
	case "SAVEPOINT":
		return &stmt{kind: sSavepoint, name: p.ident()}
	case "RELEASE":
		p.must("SAVEPOINT")
		return &stmt{kind: sRelease, name: p.ident()}
	case "ROLLBACK":
		if p.kw("TO") {
			p.kw("SAVEPOINT")
			return &stmt{kind: sRollbackTo, name: p.ident()}
		}
		return &stmt{kind: sRollback}
	case "COMMIT":
		return &stmt{kind: sCommit}
	case "BEGIN":
		return &stmt{kind: sBegin}
	case "START":
		p.must("TRANSACTION")
		return &stmt{kind: sBegin}
	}
	unsupported("statement %q", p.sql)
	return nil
}

func (p *parser) tableName() string {
	n := p.ident()
	if p.op(".") {
		n = p.ident()
	}
	return n
}

func (p *parser) colName() string {
	n := p.ident()
	for p.op(".") {
		n = p.ident()
	}
	return strings.ToLower(n)
}

func (p *parser) assigns() []assign {
	var out []assign
	for {
		c := p.colName()
		p.must("=")
		out = append(out, assign{c, p.expr()})
		if !p.op(",") {
			return out
		}
	}
}

func (p *parser) tail(s *stmt) {
	if p.kw("WHERE") {
		s.where = p.expr()
	}
	if p.kw("GROUP") {
		p.must("BY")
		for {
			s.group = append(s.group, p.expr())
			if !p.op(",") {
				break
			}
		}
	}
	if p.kw("HAVING") {
		s.having = p.expr()
	}
	if p.kw("ORDER") {
		p.must("BY")
		for {
			o := orderItem{e: p.expr()}
			if p.kw("DESC") {
				o.desc = true
			} else {
				p.kw("ASC")
			}
			s.order = append(s.order, o)
			if !p.op(",") {
				break
			}
		}
	}
	if p.kw("LIMIT") {
		s.limit = p.expr()
		if p.op(",") {
			s.offset = s.limit
			s.limit = p.expr()
		} else if p.kw("OFFSET") {
			s.offset = p.expr()
		}
	}
	if p.kw("FOR") {
		if p.kw("UPDATE") {
			s.lock = lockUpdate
		} else {
			p.must("SHARE")
			s.lock = lockShare
		}
		if p.kw("OF") {
			p.ident()
		}
		if p.kw("NOWAIT") {
			s.nowait = true
		} else if p.kw("SKIP") {
			p.must("LOCKED")
			s.skip = true
		}
	} else if p.kw("LOCK") {
		p.must("IN")
		p.must("SHARE")
		p.must("MODE")
		s.lock = lockShare
	}
}

func (p *parser) selectStmt() *stmt {
	s := &stmt{kind: sSelect}
	if p.kw("DISTINCT") {
		s.distinct = true
	}
	for {
		start := p.i
		e := p.expr()
		name := ""
		if p.kw("AS") {
			name = p.ident()
		} else if t := p.peek(); t.k == tQIdent {
			name = p.ident()
		} else if e.k == eCol {
			name = e.op
		} else {
			var sb strings.Builder
			for _, t := range p.toks[start:p.i] {
				sb.WriteString(t.s)
			}
			name = sb.String()
		}
		s.items = append(s.items, selItem{e, name})
		if !p.op(",") {
			break
		}
	}
	if p.kw("FROM") {
		s.table = p.tableName()
		if p.kw("AS") {
			s.alias = p.ident()
		} else if t := p.peek(); t.k == tQIdent {
			s.alias = p.ident()
		} else if t.k == tIdent {
			switch t.u {
			case "WHERE", "GROUP", "ORDER", "LIMIT", "FOR", "LOCK", "HAVING":
			case "JOIN", "LEFT", "RIGHT", "INNER", "CROSS", "FORCE", "USE", "IGNORE":
				unsupported("%s in %q", t.u, p.sql)
			default:
				s.alias = p.ident()
			}
		}
		if p.op(",") {
			unsupported("multi-table select %q", p.sql)
		}
	}
	p.tail(s)
	return s
}

func (p *parser) expr() *expr { return p.orExpr() }

func bin(op string, a, b *expr) *expr { return &expr{k: eBin, op: op, args: []*expr{a, b}} }

func (p *parser) orExpr() *expr {
	l := p.andExpr()
	for p.kw("OR") || p.op("||") {
		l = bin("OR", l, p.andExpr())
	}
	return l
}
func (p *parser) andExpr() *expr {
	l := p.notExpr()
	for p.kw("AND") || p.op("&&") {
		l = bin("AND", l, p.notExpr())
	}
	return l
}
func (p *parser) notExpr() *expr {
	if p.kw("NOT") || p.op("!") {
		return &expr{k: eNot, args: []*expr{p.notExpr()}}
	}
	return p.cmpExpr()
}
func (p *parser) cmpExpr() *expr {
	l := p.addExpr()
	for {
		t := p.peek()
		if t.k == tOp {
			switch t.s {
			case "=", "<", ">", "<=", ">=", "<>", "!=", "<=>":
				p.i++
				op := t.s
				if op == "!=" {
					op = "<>"
				}
				l = bin(op, l, p.addExpr())
				continue
			}
			return l
		}
		if t.k != tIdent {
			return l
		}
		neg := false
		save := p.i
		if t.u == "NOT" {
			p.i++
			neg = true
			t = p.peek()
		}
		switch t.u {
		case "IN":
			p.i++
			p.must("(")
			e := &expr{k: eIn, neg: neg, args: []*expr{l}}
			if p.kw("SELECT") {
				e.sub = p.selectStmt()
				p.must(")")
			} else {
				for !p.op(")") {
					e.args = append(e.args, p.expr())
					p.op(",")
				}
			}
			l = e
		case "LIKE":
			p.i++
			l = &expr{k: eLike, neg: neg, args: []*expr{l, p.addExpr()}}
		case "BETWEEN":
			p.i++
			a := p.addExpr()
			p.must("AND")
			l = &expr{k: eBetween, neg: neg, args: []*expr{l, a, p.addExpr()}}
		case "IS":
			p.i++
			n := p.kw("NOT")
			if p.kw("NULL") {
				l = &expr{k: eIsNull, neg: n, args: []*expr{l}}
			} else if p.kw("TRUE") {
				l = bin("<=>", &expr{k: eNot, args: []*expr{{k: eNot, args: []*expr{l}}}}, &expr{k: eLit, lit: int64(1)})
				if n {
					l = &expr{k: eNot, args: []*expr{l}}
				}
			} else {
				unsupported("IS in %q", p.sql)
			}
		default:
			p.i = save
			return l
		}
	}
}
func (p *parser) addExpr() *expr {
	l := p.mulExpr()
	for {
		if p.op("+") {
			l = bin("+", l, p.mulExpr())
		} else if p.op("-") {
			l = bin("-", l, p.mulExpr())
		} else {
			return l
		}
	}
}
func (p *parser) mulExpr() *expr {
	l := p.unary()
	for {
		if p.op("*") {
			l = bin("*", l, p.unary())
		} else if p.op("/") {
			l = bin("/", l, p.unary())
		} else if p.op("%") {
			l = bin("%", l, p.unary())
		} else {
			return l
		}
	}
}
func (p *parser) unary() *expr {
	if p.op("-") {
		return &expr{k: eNeg, args: []*expr{p.unary()}}
	}
	if p.op("+") {
		return p.unary()
	}
	return p.primary()
}

func (p *parser) primary() *expr {
	t := p.next()
	switch t.k {
	case tNum:
		if strings.ContainsAny(t.s, ".eE") {
			f, err := strconv.ParseFloat(t.s, 64)
			if err != nil {
				unsupported("number %q", t.s)
			}
			return &expr{k: eLit, lit: f}
		}
		n, err := strconv.ParseInt(t.s, 10, 64)
		if err != nil {
			unsupported("number %q", t.s)
		}
		return &expr{k: eLit, lit: n}
	case tStr:
		return &expr{k: eLit, lit: t.s}
	case tParam:
		p.np++
		return &expr{k: eParam, n: p.np - 1}
	case tOp:
		if t.s == "(" {
			if p.kw("SELECT") {
				sub := p.selectStmt()
				p.must(")")
				return &expr{k: eSub, sub: sub}
			}
			e := p.expr()
			if p.op(",") {
				tup := &expr{k: eTuple, args: []*expr{e}}
				for !p.op(")") {
					tup.args = append(tup.args, p.expr())
					p.op(",")
				}
				return tup
			}
			p.must(")")
			return e
		}
		if t.s == "*" {
			return &expr{k: eStar}
		}
	case tIdent, tQIdent:
		if t.k == tIdent {
			switch t.u {
			case "NULL":
				return &expr{k: eLit}
			case "TRUE":
				return &expr{k: eLit, lit: int64(1)}
			case "FALSE":
				return &expr{k: eLit, lit: int64(0)}
			case "DEFAULT":
				return &expr{k: eDefault}
			case "DISTINCT":
				e := p.expr()
				e2 := *e
				e2.dist = true
				return &e2
			case "EXISTS":
				p.must("(")
				p.must("SELECT")
				sub := p.selectStmt()
				p.must(")")
				return &expr{k: eExists, sub: sub}
			case "INTERVAL":
				unsupported("INTERVAL in %q", p.sql)
			case "CASE":
				e := &expr{k: eCase}
				if !p.isKw("WHEN") {
					unsupported("simple CASE in %q", p.sql)
				}
				for p.kw("WHEN") {
					c := p.expr()
					p.must("THEN")
					e.args = append(e.args, c, p.expr())
				}
				if p.kw("ELSE") {
					e.args = append(e.args, p.expr())
				}
				p.must("END")
				return e
			case "CURRENT_TIMESTAMP":
				if p.op("(") {
					for !p.op(")") {
						p.next()
					}
				}
				return &expr{k: eFunc, op: "NOW", args: []*expr{{k: eLit, lit: int64(6)}}}
			}
			if p.op("(") {
				f := &expr{k: eFunc, op: t.u}
				for !p.op(")") {
					if p.kw("DISTINCT") {
						f.dist = true
					}
					f.args = append(f.args, p.expr())
					p.op(",")
				}
				return f
			}
		}
		name := t.s
		tbl := ""
		for p.op(".") {
			tbl = name
			if p.op("*") {
				return &expr{k: eStar, tbl: tbl}
			}
			name = p.ident()
		}
		return &expr{k: eCol, op: strings.ToLower(name), tbl: tbl}
	}
	unsupported("token %q in %q", t.s, p.sql)
	return nil
}
