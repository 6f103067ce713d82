package main

import (
	"bytes"
	"context"
	"crypto/sha1"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
	_ "unsafe"
)

// A redis server and its network, as far as the lock needs them.

//go:linkname redisSeed github.com/redis/go-redis/v9/internal/rand.Seed
func redisSeed(n int64)

type rdEntry struct {
	val  string
	exp  int64 // ns, 0: never
	cmd  uint64
	node int
}

type redisSim struct {
	w       *World
	keys    map[string]*rdEntry
	scripts map[string]string
	hello   bool // knows HELLO (RESP3)
	// onSet and onDel observe changes; cmd is the command that caused it.
	onSet func(cmd uint64, key string, e *rdEntry)
	onExp func(key string)
	onDel func(cmd uint64, key string, e *rdEntry)
}

func newRedis(w *World) *redisSim {
	redisSeed(int64(w.W.N(1 << 30)))
	return &redisSim{w: w, keys: map[string]*rdEntry{}, scripts: map[string]string{}}
}

// get returns the live entry of a key.
func (s *redisSim) get(key string) *rdEntry {
	e := s.keys[key]
	if e != nil && e.exp != 0 && e.exp <= runtime.SimNow() {
		delete(s.keys, key)
		if s.onExp != nil {
			s.onExp(key)
		}
		s.w.Log("redis %s expires", key)
		return nil
	}
	return e
}

type rdErr string
type rdOK string

func (s *redisSim) set(cmd uint64, node int, args []string) any {
	key, e := args[1], &rdEntry{val: args[2], cmd: cmd, node: node}
	nx, xx := false, false
	for i := 3; i < len(args); i++ {
		switch strings.ToLower(args[i]) {
		case "nx":
			nx = true
		case "xx":
			xx = true
		case "px", "ex":
			i++
			if i >= len(args) {
				return rdErr("ERR syntax error")
			}
			n, err := strconv.ParseInt(args[i], 10, 64)
			if err != nil || n <= 0 {
				return rdErr("ERR invalid expire time in 'set' command")
			}
			d := time.Duration(n) * time.Millisecond
			if strings.ToLower(args[i-1]) == "ex" {
				d = time.Duration(n) * time.Second
			}
			e.exp = runtime.SimNow() + int64(d)
		case "keepttl":
			if o := s.get(key); o != nil {
				e.exp = o.exp
			}
		default:
			return rdErr("ERR syntax error")
		}
	}
	old := s.get(key)
	if nx && old != nil || xx && old == nil {
		return nil
	}
	s.put(cmd, key, e)
	return rdOK("OK")
}

func (s *redisSim) put(cmd uint64, key string, e *rdEntry) {
	s.keys[key] = e
	if s.onSet != nil {
		s.onSet(cmd, key, e)
	}
}

func (s *redisSim) del(cmd uint64, key string) int64 {
	e := s.get(key)
	if e == nil {
		return 0
	}
	delete(s.keys, key)
	if s.onDel != nil {
		s.onDel(cmd, key, e)
	}
	return 1
}

var luaCAS = regexp.MustCompile(`(?s)^\s*if\s+redis\.call\(["'](\w+)["']\s*,\s*KEYS\[1\]\)\s*==\s*ARGV\[1\]\s*then\s+return\s+redis\.call\((.*?)\)\s*(?:;\s*)?else\s+return\s+(-?\d+)\s*(?:;\s*)?end;?\s*$`)
var luaPlain = regexp.MustCompile(`(?s)^\s*return\s+redis\.call\((.*?)\)\s*$`)

// eval runs the few forms of script locks use.
func (s *redisSim) eval(cmd uint64, node int, src string, keys, argv []string) any {
	sub := func(list string) []string {
		var out []string
		for _, p := range strings.Split(list, ",") {
			p = strings.TrimSpace(p)
			switch {
			case strings.HasPrefix(p, "KEYS["):
				n, _ := strconv.Atoi(strings.Trim(p[5:], "]"))
				out = append(out, keys[n-1])
			case strings.HasPrefix(p, "ARGV["):
				n, _ := strconv.Atoi(strings.Trim(p[5:], "]"))
				out = append(out, argv[n-1])
			default:
				out = append(out, strings.Trim(p, `"'`))
			}
		}
		return out
	}
	if m := luaCAS.FindStringSubmatch(src); m != nil {
		cur := s.exec(cmd, node, []string{m[1], keys[0]})
		if v, ok := cur.(string); ok && v == argv[0] {
			return s.exec(cmd, node, sub(m[2]))
		}
		n, _ := strconv.ParseInt(m[3], 10, 64)
		return n
	}
	if m := luaPlain.FindStringSubmatch(src); m != nil {
		return s.exec(cmd, node, sub(m[1]))
	}
	panic("redis model: unsupported script: " + src)
}

func (s *redisSim) exec(cmd uint64, node int, a []string) any {
	switch strings.ToLower(a[0]) {
	case "hello":
		if !s.hello {
			return rdErr("ERR unknown command 'HELLO'")
		}
		return map[string]any{"server": "redis", "proto": int64(3)}
	case "ping":
		return rdOK("PONG")
	case "auth", "select", "client":
		return rdOK("OK")
	case "get":
		if e := s.get(a[1]); e != nil {
			return e.val
		}
		return nil
	case "exists":
		if s.get(a[1]) != nil {
			return int64(1)
		}
		return int64(0)
	case "set":
		return s.set(cmd, node, a)
	case "setnx":
		if s.get(a[1]) != nil {
			return int64(0)
		}
		s.put(cmd, a[1], &rdEntry{val: a[2], cmd: cmd, node: node})
		return int64(1)
	case "getset":
		var old any
		if e := s.get(a[1]); e != nil {
			old = e.val
		}
		s.put(cmd, a[1], &rdEntry{val: a[2], cmd: cmd, node: node})
		return old
	case "del", "unlink":
		n := int64(0)
		for _, k := range a[1:] {
			n += s.del(cmd, k)
		}
		return n
	case "expire", "pexpire":
		e := s.get(a[1])
		if e == nil {
			return int64(0)
		}
		n, err := strconv.ParseInt(a[2], 10, 64)
		if err != nil {
			return rdErr("ERR value is not an integer or out of range")
		}
		d := time.Duration(n) * time.Millisecond
		if strings.ToLower(a[0]) == "expire" {
			d = time.Duration(n) * time.Second
		}
		if d <= 0 {
			s.del(cmd, a[1])
			return int64(1)
		}
		e2 := *e
		e2.exp = runtime.SimNow() + int64(d)
		s.put(cmd, a[1], &e2)
		return int64(1)
	case "pttl", "ttl":
		e := s.get(a[1])
		if e == nil {
			return int64(-2)
		}
		if e.exp == 0 {
			return int64(-1)
		}
		d := time.Duration(e.exp - runtime.SimNow())
		if strings.ToLower(a[0]) == "ttl" {
			return int64((d + 500*time.Millisecond) / time.Second)
		}
		return int64(d / time.Millisecond)
	case "script":
		if strings.ToLower(a[1]) == "load" {
			h := fmt.Sprintf("%x", sha1.Sum([]byte(a[2])))
			s.scripts[h] = a[2]
			return h
		}
		return rdOK("OK")
	case "eval", "evalsha":
		src := a[1]
		if strings.ToLower(a[0]) == "evalsha" {
			var ok bool
			if src, ok = s.scripts[a[1]]; !ok {
				return rdErr("NOSCRIPT No matching script. Please use EVAL.")
			}
		} else {
			s.scripts[fmt.Sprintf("%x", sha1.Sum([]byte(src)))] = src
		}
		n, _ := strconv.Atoi(a[2])
		return s.eval(cmd, node, src, a[3:3+n], a[3+n:])
	}
	panic("redis model: unsupported command: " + strings.Join(a, " "))
}

func (s *redisSim) encode(b *bytes.Buffer, v any) {
	switch x := v.(type) {
	case nil:
		if s.hello {
			b.WriteString("_\r\n")
		} else {
			b.WriteString("$-1\r\n")
		}
	case rdErr:
		fmt.Fprintf(b, "-%s\r\n", string(x))
	case rdOK:
		fmt.Fprintf(b, "+%s\r\n", string(x))
	case string:
		fmt.Fprintf(b, "$%d\r\n%s\r\n", len(x), x)
	case int64:
		fmt.Fprintf(b, ":%d\r\n", x)
	case map[string]any:
		fmt.Fprintf(b, "%%%d\r\n", len(x))
		for _, k := range []string{"server", "proto"} {
			s.encode(b, k)
			s.encode(b, x[k])
		}
	default:
		panic(fmt.Sprintf("redis model: reply %T", v))
	}
}

// ------------------------------------------------------------- connection

type rdConn struct {
	s      *redisSim
	n      *Node
	inc    int
	req    []byte // bytes written and not yet executed
	rep    bytes.Buffer
	dead   bool
	rdl    time.Time
	closed bool
}

type rdAddr struct{}

func (rdAddr) Network() string { return "sim" }
func (rdAddr) String() string  { return "redis:6379" }

// dial opens a connection from the calling node.
func (s *redisSim) dial(ctx context.Context, _, _ string) (net.Conn, error) {
	w, n, _ := self()
	c := &rdConn{s: s, n: n, inc: n.inc}
	v := w.park(ctx, &op{kind: "connect", desc: "redis connect", redis: true, exec: func(*op) (any, error) { return nil, nil },
		fail: func(o *op, kind string) error {
			return &net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
		}})
	if v.err != nil {
		return nil, v.err
	}
	return c, nil
}

func (c *rdConn) LocalAddr() net.Addr                { return rdAddr{} }
func (c *rdConn) RemoteAddr() net.Addr               { return rdAddr{} }
func (c *rdConn) SetDeadline(t time.Time) error      { c.rdl = t; return nil }
func (c *rdConn) SetReadDeadline(t time.Time) error  { c.rdl = t; return nil }
func (c *rdConn) SetWriteDeadline(t time.Time) error { return nil }
func (c *rdConn) Close() error {
	c.closed, c.dead = true, true
	return nil
}

func (c *rdConn) Write(b []byte) (int, error) {
	self()
	if c.dead {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)}
	}
	c.req = append(c.req, b...)
	return len(b), nil
}

// next takes one complete command from the bytes written.
func (c *rdConn) next() []string {
	line := func(p int) (string, int) {
		i := bytes.Index(c.req[p:], []byte("\r\n"))
		if i < 0 {
			return "", -1
		}
		return string(c.req[p : p+i]), p + i + 2
	}
	l, p := line(0)
	if p < 0 || l == "" || l[0] != '*' {
		return nil
	}
	n, _ := strconv.Atoi(l[1:])
	var out []string
	for i := 0; i < n; i++ {
		l, p = line(p)
		if p < 0 || l == "" {
			return nil
		}
		k, _ := strconv.Atoi(l[1:])
		if p+k+2 > len(c.req) {
			return nil
		}
		out = append(out, string(c.req[p:p+k]))
		p += k + 2
	}
	c.req = c.req[p:]
	return out
}

func (c *rdConn) Read(b []byte) (int, error) {
	w, _, cmdID := self()
	if c.rep.Len() > 0 {
		return c.rep.Read(b)
	}
	if c.dead {
		return 0, io.EOF
	}
	args := c.next()
	if args == nil {
		// nothing was asked: nothing will come
		c.dead = true
		return 0, io.EOF
	}
	var ctx context.Context
	if !c.rdl.IsZero() {
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(context.Background(), time.Until(c.rdl))
		defer cancel()
	}
	name := strings.ToLower(args[0])
	desc := "redis " + strings.Join(args, " ")
	if strings.HasPrefix(name, "eval") {
		desc = "redis " + name + " " + args[1][:min(12, len(args[1]))] + "~ " + strings.Join(args[2:], " ")
	}
	v := w.parkDetached(ctx, &op{kind: "redis-" + name, desc: desc, redis: true,
		write: name == "set" || name == "eval" || name == "evalsha" || name == "del",
		exec: func(o *op) (any, error) {
			return c.s.exec(cmdID, o.node.idx, args), nil
		},
		fail: func(o *op, kind string) error {
			c.dead = true
			return &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}
		}})
	if v.err != nil {
		c.dead = true
		if errors.Is(v.err, context.DeadlineExceeded) {
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded}
		}
		return 0, v.err
	}
	c.s.encode(&c.rep, v.res)
	return c.rep.Read(b)
}
