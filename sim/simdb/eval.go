package simdb

import (
	"fmt"
	"math"
	"strings"
	"time"
)

type ectx struct {
	db    *DB
	tx    *Tx
	t     *Table
	row   []any
	ins   []any // VALUES(col) in ON DUPLICATE KEY UPDATE
	args  []any
	grp   [][]any
	inGrp bool
}

func (ec *ectx) truth(e *expr) (bool, error) {
	v, err := ec.eval(e)
	if err != nil || v == nil {
		return false, err
	}
	switch x := v.(type) {
	case time.Time:
		return true, nil
	default:
		return toFloat(x) != 0, nil
	}
}

func b2i(b bool) any {
	if b {
		return int64(1)
	}
	return int64(0)
}

func (ec *ectx) cmp(op string, a, b any) any {
	if op == "<=>" {
		return b2i(cmpVal(a, b) == 0)
	}
	if a == nil || b == nil {
		return nil
	}
	c := cmpVal(a, b)
	switch op {
	case "=":
		return b2i(c == 0)
	case "<>":
		return b2i(c != 0)
	case "<":
		return b2i(c < 0)
	case "<=":
		return b2i(c <= 0)
	case ">":
		return b2i(c > 0)
	case ">=":
		return b2i(c >= 0)
	}
	unsupported("operator %s", op)
	return nil
}

func (ec *ectx) tupleEq(a, b *expr) (any, error) {
	if len(a.args) != len(b.args) {
		return nil, sqlErr(1241, "Operand should contain %d column(s)", len(a.args))
	}
	res := any(int64(1))
	for i := range a.args {
		x, err := ec.eval(a.args[i])
		if err != nil {
			return nil, err
		}
		y, err := ec.eval(b.args[i])
		if err != nil {
			return nil, err
		}
		switch ec.cmp("=", x, y) {
		case nil:
			res = nil
		case int64(0):
			return int64(0), nil
		}
	}
	return res, nil
}

func (ec *ectx) subRows(s *stmt) ([][]any, error) {
	sub := &ectx{db: ec.db, tx: ec.tx, args: ec.args}
	r, err := ec.tx.sel(s, sub)
	if err != nil {
		return nil, err
	}
	return r.Rows, nil
}

func (ec *ectx) eval(e *expr) (any, error) {
	switch e.k {
	case eLit:
		return e.lit, nil
	case eParam:
		return ec.args[e.n], nil
	case eCol:
		if ec.t == nil {
			return nil, sqlErr(1054, "Unknown column '%s' in 'field list'", e.op)
		}
		i, ok := ec.t.byName[e.op]
		if !ok {
			return nil, sqlErr(1054, "Unknown column '%s' in 'where clause'", e.op)
		}
		return ec.row[i], nil
	case eNot:
		v, err := ec.eval(e.args[0])
		if err != nil || v == nil {
			return nil, err
		}
		return b2i(toFloat(v) == 0), nil
	case eNeg:
		v, err := ec.eval(e.args[0])
		if err != nil || v == nil {
			return nil, err
		}
		if n, ok := v.(int64); ok {
			return -n, nil
		}
		return -toFloat(v), nil
	case eIsNull:
		v, err := ec.eval(e.args[0])
		if err != nil {
			return nil, err
		}
		return b2i((v == nil) != e.neg), nil
	case eBetween:
		v, err := ec.eval(e.args[0])
		if err != nil {
			return nil, err
		}
		a, err := ec.eval(e.args[1])
		if err != nil {
			return nil, err
		}
		b, err := ec.eval(e.args[2])
		if err != nil {
			return nil, err
		}
		if v == nil || a == nil || b == nil {
			return nil, nil
		}
		in := cmpVal(v, a) >= 0 && cmpVal(v, b) <= 0
		return b2i(in != e.neg), nil
	case eLike:
		v, err := ec.eval(e.args[0])
		if err != nil {
			return nil, err
		}
		p, err := ec.eval(e.args[1])
		if err != nil {
			return nil, err
		}
		if v == nil || p == nil {
			return nil, nil
		}
		return b2i(like(strings.ToLower(fmt.Sprint(v)), strings.ToLower(fmt.Sprint(p))) != e.neg), nil
	case eIn:
		if e.sub != nil {
			v, err := ec.eval(e.args[0])
			if err != nil {
				return nil, err
			}
			rows, err := ec.subRows(e.sub)
			if err != nil {
				return nil, err
			}
			for _, r := range rows {
				if ec.cmp("=", v, r[0]) == any(int64(1)) {
					return b2i(!e.neg), nil
				}
			}
			return b2i(e.neg), nil
		}
		if e.args[0].k == eTuple {
			for _, x := range e.args[1:] {
				r, err := ec.tupleEq(e.args[0], x)
				if err != nil {
					return nil, err
				}
				if r == any(int64(1)) {
					return b2i(!e.neg), nil
				}
			}
			return b2i(e.neg), nil
		}
		v, err := ec.eval(e.args[0])
		if err != nil || v == nil {
			return nil, err
		}
		null := false
		for _, x := range e.args[1:] {
			w, err := ec.eval(x)
			if err != nil {
				return nil, err
			}
			if w == nil {
				null = true
				continue
			}
			if cmpVal(v, w) == 0 {
				return b2i(!e.neg), nil
			}
		}
		if null {
			return nil, nil
		}
		return b2i(e.neg), nil
	case eExists:
		rows, err := ec.subRows(e.sub)
		if err != nil {
			return nil, err
		}
		return b2i(len(rows) > 0), nil
	case eSub:
		rows, err := ec.subRows(e.sub)
		if err != nil {
			return nil, err
		}
		if len(rows) == 0 {
			return nil, nil
		}
		return rows[0][0], nil
	case eCase:
		n := len(e.args)
		for i := 0; i+1 < n; i += 2 {
			ok, err := ec.truth(e.args[i])
			if err != nil {
				return nil, err
			}
			if ok {
				return ec.eval(e.args[i+1])
			}
		}
		if n%2 == 1 {
			return ec.eval(e.args[n-1])
		}
		return nil, nil
	case eBin:
		switch e.op {
		case "AND", "OR":
			a, err := ec.eval(e.args[0])
			if err != nil {
				return nil, err
			}
			stop := e.op == "OR"
			if a != nil && (toFloat(a) != 0) == stop {
				return b2i(stop), nil
			}
			b, err := ec.eval(e.args[1])
			if err != nil {
				return nil, err
			}
			if b != nil && (toFloat(b) != 0) == stop {
				return b2i(stop), nil
			}
			if a == nil || b == nil {
				return nil, nil
			}
			return b2i(!stop), nil
		}
		if e.args[0].k == eTuple && e.op == "=" {
			return ec.tupleEq(e.args[0], e.args[1])
		}
		a, err := ec.eval(e.args[0])
		if err != nil {
			return nil, err
		}
		b, err := ec.eval(e.args[1])
		if err != nil {
			return nil, err
		}
		switch e.op {
		case "+", "-", "*", "/", "%":
			if a == nil || b == nil {
				return nil, nil
			}
			if _, ok := a.(time.Time); ok {
				unsupported("datetime arithmetic")
			}
			x, ok1 := a.(int64)
			y, ok2 := b.(int64)
			if ok1 && ok2 && e.op != "/" {
				switch e.op {
				case "+":
					return x + y, nil
				case "-":
					return x - y, nil
				case "*":
					return x * y, nil
				case "%":
					if y == 0 {
						return nil, nil
					}
					return x % y, nil
				}
			}
			f, g := toFloat(a), toFloat(b)
			switch e.op {
			case "+":
				return f + g, nil
			case "-":
				return f - g, nil
			case "*":
				return f * g, nil
			case "/":
				if g == 0 {
					return nil, nil
				}
				return f / g, nil
			case "%":
				if g == 0 {
					return nil, nil
				}
				return math.Mod(f, g), nil
			}
		}
		return ec.cmp(e.op, a, b), nil
	case eFunc:
		return ec.call(e)
	}
	unsupported("expression kind %d", e.k)
	return nil, nil
}

func (ec *ectx) call(e *expr) (any, error) {
	if aggs[e.op] {
		if !ec.inGrp {
			return nil, sqlErr(1111, "Invalid use of group function")
		}
		grp, row := ec.grp, ec.row
		defer func() { ec.grp, ec.inGrp, ec.row = grp, true, row }()
		var vals []any
		ec.inGrp = false
		seen := map[any]bool{}
		for _, r := range grp {
			if len(e.args) == 1 && e.args[0].k == eStar {
				vals = append(vals, int64(1))
				continue
			}
			ec.row = r
			v, err := ec.eval(e.args[0])
			if err != nil {
				return nil, err
			}
			if v == nil {
				continue
			}
			if e.dist || e.args[0].dist {
				if seen[fold(v)] {
					continue
				}
				seen[fold(v)] = true
			}
			vals = append(vals, v)
		}
		switch e.op {
		case "COUNT":
			return int64(len(vals)), nil
		case "SUM", "AVG":
			if len(vals) == 0 {
				return nil, nil
			}
			s, allInt := 0.0, true
			for _, v := range vals {
				if _, ok := v.(int64); !ok {
					allInt = false
				}
				s += toFloat(v)
			}
			if e.op == "AVG" {
				return s / float64(len(vals)), nil
			}
			if allInt {
				return int64(s), nil
			}
			return s, nil
		}
		var best any
		for _, v := range vals {
			if best == nil || (e.op == "MIN" && cmpVal(v, best) < 0) || (e.op == "MAX" && cmpVal(v, best) > 0) {
				best = v
			}
		}
		return best, nil
	}
	if e.op == "VALUES" {
		if ec.ins == nil {
			return nil, nil
		}
		i, ok := ec.t.byName[e.args[0].op]
		if !ok {
			return nil, sqlErr(1054, "Unknown column '%s' in 'field list'", e.args[0].op)
		}
		return ec.ins[i], nil
	}
	var args []any
	for _, a := range e.args {
		v, err := ec.eval(a)
		if err != nil {
			return nil, err
		}
		args = append(args, v)
	}
	switch e.op {
	case "NOW", "SYSDATE", "LOCALTIME", "UTC_TIMESTAMP":
		p := 0
		if len(args) > 0 {
			p = int(toInt(args[0]))
		}
		d := time.Second
		for i := 0; i < p; i++ {
			d /= 10
		}
		return ec.db.Now().UTC().Truncate(d), nil
	case "IFNULL", "COALESCE":
		for _, a := range args {
			if a != nil {
				return a, nil
			}
		}
		return nil, nil
	case "IF":
		if args[0] != nil && toFloat(args[0]) != 0 {
			return args[1], nil
		}
		return args[2], nil
	case "LOWER", "UPPER":
		if args[0] == nil {
			return nil, nil
		}
		if e.op == "LOWER" {
			return strings.ToLower(fmt.Sprint(args[0])), nil
		}
		return strings.ToUpper(fmt.Sprint(args[0])), nil
	case "LENGTH":
		if args[0] == nil {
			return nil, nil
		}
		return int64(len(fmt.Sprint(args[0]))), nil
	case "CONCAT":
		var sb strings.Builder
		for _, a := range args {
			if a == nil {
				return nil, nil
			}
			sb.WriteString(fmt.Sprint(a))
		}
		return sb.String(), nil
	case "GREATEST", "LEAST":
		var best any
		for _, v := range args {
			if v == nil {
				return nil, nil
			}
			if best == nil || (e.op == "LEAST" && cmpVal(v, best) < 0) || (e.op == "GREATEST" && cmpVal(v, best) > 0) {
				best = v
			}
		}
		return best, nil
	case "VERSION":
		return "8.0.33", nil
	}
	unsupported("function %s", e.op)
	return nil, nil
}

func like(s, p string) bool {
	for len(p) > 0 {
		switch p[0] {
		case '%':
			for i := 0; i <= len(s); i++ {
				if like(s[i:], p[1:]) {
					return true
				}
			}
			return false
		case '_':
			if s == "" {
				return false
			}
			s, p = s[1:], p[1:]
		case '\\':
			if len(p) > 1 {
				p = p[1:]
			}
			fallthrough
		default:
			if s == "" || s[0] != p[0] {
				return false
			}
			s, p = s[1:], p[1:]
		}
	}
	return s == ""
}
