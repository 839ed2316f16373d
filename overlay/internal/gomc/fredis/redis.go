// Package fredis is a Redis server model: the keyspace, expiry and commands a
// commit script can use, and EVAL with a Lua interpreter.
package fredis

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Server is one keyspace. Commands run atomically at time Now.
type Server struct {
	Now     time.Time
	Strings map[string]string
	Hashes  map[string]map[string]string
	Expiry  map[string]time.Time
	// OldNumbers selects the number formatting of servers before 7.0 for
	// arguments that a script passes as Lua numbers.
	OldNumbers bool
	// Full makes the first write of a script (or command) fail with OOM.
	Full bool

	wrote bool
	Log   []string
	next  time.Time // no key expires before this
}

var cache = map[string]stmtFn{} // compiled scripts

var library = func() *scope {
	g := &scope{map[string]*any{}, nil}
	for n, v := range globals() {
		g.def(n, v)
	}
	return g
}()

type stmtFn func(*scope) (ctl, []any)

// New returns an empty server.
func New() *Server {
	return &Server{Now: time.Unix(1_700_000_000, 0), Strings: map[string]string{}, Hashes: map[string]map[string]string{}, Expiry: map[string]time.Time{}}
}

// Err is an error reply.
type Err string

func (e Err) Error() string { return string(e) }

// Status is a simple string reply.
type Status string

func (s *Server) purge() {
	if len(s.Expiry) == 0 || s.Now.Before(s.next) {
		return
	}
	s.next = time.Time{}
	for k, t := range s.Expiry {
		if !s.Now.Before(t) {
			delete(s.Expiry, k)
			delete(s.Strings, k)
			delete(s.Hashes, k)
		} else if s.next.IsZero() || t.Before(s.next) {
			s.next = t
		}
	}
}

func (s *Server) expire(k string, t time.Time) {
	s.Expiry[k] = t
	if t.Before(s.next) {
		s.next = t
	}
}

// Keys lists the live keys in order.
func (s *Server) Keys() []string {
	s.purge()
	var out []string
	for k := range s.Strings {
		out = append(out, k)
	}
	for k := range s.Hashes {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (s *Server) exists(k string) bool {
	_, a := s.Strings[k]
	_, b := s.Hashes[k]
	return a || b
}

func (s *Server) del(k string) {
	delete(s.Strings, k)
	delete(s.Hashes, k)
	delete(s.Expiry, k)
}

func strictInt(t string) (int64, bool) {
	n, err := strconv.ParseInt(t, 10, 64)
	if err != nil || strconv.FormatInt(n, 10) != t {
		return 0, false // Redis accepts only the canonical form
	}
	return n, true
}

const (
	wrongType = Err("WRONGTYPE Operation against a key holding the wrong kind of value")
	notInt    = Err("ERR value is not an integer or out of range")
	syntax    = Err("ERR syntax error")
)

var writes = map[string]bool{"SET": true, "SETNX": true, "SETEX": true, "PSETEX": true, "HINCRBY": true, "HSET": true, "HSETNX": true, "INCR": true, "DECR": true, "INCRBY": true, "DECRBY": true}

// Do runs one command and returns nil, int64, string, Status, []any or Err.
func (s *Server) Do(args ...string) any {
	s.purge()
	if len(args) == 0 {
		return Err("ERR wrong number of arguments")
	}
	c := strings.ToUpper(args[0])
	a := args[1:]
	if writes[c] && s.Full && !s.wrote {
		return Err("OOM command not allowed when used memory > 'maxmemory'.")
	}
	need := func(n int) bool { return len(a) == n }
	bad := Err("ERR wrong number of arguments for '" + strings.ToLower(c) + "' command")
	add := func(k, cur string, d int64) (int64, any) {
		v := int64(0)
		if cur != "" {
			var ok bool
			if v, ok = strictInt(cur); !ok {
				return 0, Err("ERR hash value is not an integer")
			}
		}
		if d > 0 && v > math.MaxInt64-d || d < 0 && v < math.MinInt64-d {
			return 0, Err("ERR increment or decrement would overflow")
		}
		return v + d, nil
	}
	switch c {
	case "PING":
		return Status("PONG")
	case "GET":
		if !need(1) {
			return bad
		}
		if _, ok := s.Hashes[a[0]]; ok {
			return wrongType
		}
		if v, ok := s.Strings[a[0]]; ok {
			return v
		}
		return nil
	case "SETNX":
		if !need(2) {
			return bad
		}
		if s.exists(a[0]) {
			return int64(0)
		}
		s.wrote = true
		s.Strings[a[0]] = a[1]
		return int64(1)
	case "SETEX", "PSETEX":
		if !need(3) {
			return bad
		}
		n, ok := strictInt(a[1])
		if !ok {
			return notInt
		}
		if n <= 0 {
			return Err("ERR invalid expire time in 'setex' command")
		}
		s.wrote = true
		s.del(a[0])
		s.Strings[a[0]] = a[2]
		unit := time.Second
		if c == "PSETEX" {
			unit = time.Millisecond
		}
		s.expire(a[0], s.Now.Add(time.Duration(n)*unit))
		return Status("OK")
	case "SET":
		if len(a) < 2 {
			return bad
		}
		var nx, xx, keep, get bool
		var ttl time.Duration
		for i := 2; i < len(a); i++ {
			switch o := strings.ToUpper(a[i]); o {
			case "NX":
				nx = true
			case "XX":
				xx = true
			case "KEEPTTL":
				keep = true
			case "GET":
				get = true
			case "EX", "PX":
				if i+1 >= len(a) {
					return syntax
				}
				i++
				n, ok := strictInt(a[i])
				if !ok {
					return notInt
				}
				if n <= 0 {
					return Err("ERR invalid expire time in 'set' command")
				}
				ttl = time.Duration(n) * time.Second
				if o == "PX" {
					ttl = time.Duration(n) * time.Millisecond
				}
			default:
				return syntax
			}
		}
		if get {
			panic(Unsupported("redis SET GET"))
		}
		if nx && s.exists(a[0]) || xx && !s.exists(a[0]) {
			return nil
		}
		s.wrote = true
		old, had := s.Expiry[a[0]]
		s.del(a[0])
		s.Strings[a[0]] = a[1]
		if keep && had {
			s.expire(a[0], old)
		}
		if ttl > 0 {
			s.expire(a[0], s.Now.Add(ttl))
		}
		return Status("OK")
	case "EXISTS":
		n := int64(0)
		for _, k := range a {
			if s.exists(k) {
				n++
			}
		}
		return n
	case "TYPE":
		if _, ok := s.Strings[a[0]]; ok {
			return Status("string")
		}
		if _, ok := s.Hashes[a[0]]; ok {
			return Status("hash")
		}
		return Status("none")
	case "DEL", "UNLINK":
		n := int64(0)
		for _, k := range a {
			if s.exists(k) {
				s.del(k)
				s.wrote = true
				n++
			}
		}
		return n
	case "EXPIRE", "PEXPIRE":
		if len(a) < 2 {
			return bad
		}
		n, ok := strictInt(a[1])
		if !ok {
			return notInt
		}
		unit := time.Second
		if c == "PEXPIRE" {
			unit = time.Millisecond
		}
		if n > int64(math.MaxInt64/unit)/2 || n < -int64(math.MaxInt64/unit)/2 {
			if n > math.MaxInt64/1000 {
				return Err("ERR invalid expire time in 'expire' command")
			}
			n = int64(math.MaxInt64/unit) / 2
		}
		if !s.exists(a[0]) {
			return int64(0)
		}
		at := s.Now.Add(time.Duration(n) * unit)
		if len(a) > 2 {
			old, has := s.Expiry[a[0]]
			switch strings.ToUpper(a[2]) {
			case "NX":
				if has {
					return int64(0)
				}
			case "XX":
				if !has {
					return int64(0)
				}
			case "GT":
				if !has || !at.After(old) {
					return int64(0)
				}
			case "LT":
				if has && !at.Before(old) {
					return int64(0)
				}
			default:
				return syntax
			}
		}
		s.wrote = true
		if n <= 0 {
			s.del(a[0])
			return int64(1)
		}
		s.expire(a[0], at)
		return int64(1)
	case "PERSIST":
		if _, ok := s.Expiry[a[0]]; !ok {
			return int64(0)
		}
		delete(s.Expiry, a[0])
		s.wrote = true
		return int64(1)
	case "TTL", "PTTL":
		if !s.exists(a[0]) {
			return int64(-2)
		}
		t, ok := s.Expiry[a[0]]
		if !ok {
			return int64(-1)
		}
		d := t.Sub(s.Now)
		if c == "TTL" {
			return int64((d + time.Second/2) / time.Second)
		}
		return int64(d / time.Millisecond)
	case "INCR", "DECR", "INCRBY", "DECRBY":
		d := int64(1)
		if strings.HasSuffix(c, "BY") {
			if !need(2) {
				return bad
			}
			var ok bool
			if d, ok = strictInt(a[1]); !ok {
				return notInt
			}
		} else if !need(1) {
			return bad
		}
		if _, ok := s.Hashes[a[0]]; ok {
			return wrongType
		}
		if c[0] == 'D' {
			if d == math.MinInt64 {
				return Err("ERR decrement would overflow")
			}
			d = -d
		}
		v, e := add(a[0], s.Strings[a[0]], d)
		if e != nil {
			return e
		}
		s.wrote = true
		s.Strings[a[0]] = strconv.FormatInt(v, 10)
		return v
	case "HINCRBY":
		if !need(3) {
			return bad
		}
		d, ok := strictInt(a[2])
		if !ok {
			return notInt
		}
		if _, ok := s.Strings[a[0]]; ok {
			return wrongType
		}
		h := s.Hashes[a[0]]
		v, e := add(a[0], h[a[1]], d)
		if e != nil {
			return e
		}
		if h == nil {
			h = map[string]string{}
			s.Hashes[a[0]] = h
		}
		s.wrote = true
		h[a[1]] = strconv.FormatInt(v, 10)
		return v
	case "HGET", "HEXISTS":
		if !need(2) {
			return bad
		}
		if _, ok := s.Strings[a[0]]; ok {
			return wrongType
		}
		v, ok := s.Hashes[a[0]][a[1]]
		if c == "HEXISTS" {
			if ok {
				return int64(1)
			}
			return int64(0)
		}
		if ok {
			return v
		}
		return nil
	case "HSET", "HSETNX", "HMSET":
		if len(a) < 3 || len(a)%2 == 0 {
			return bad
		}
		if _, ok := s.Strings[a[0]]; ok {
			return wrongType
		}
		h := s.Hashes[a[0]]
		if _, has := h[a[1]]; has && c == "HSETNX" {
			return int64(0)
		}
		if h == nil {
			h = map[string]string{}
			s.Hashes[a[0]] = h
		}
		n := int64(0)
		for i := 1; i < len(a); i += 2 {
			if _, has := h[a[i]]; !has {
				n++
			}
			h[a[i]] = a[i+1]
		}
		s.wrote = true
		return n
	case "HDEL":
		n := int64(0)
		for _, f := range a[1:] {
			if _, ok := s.Hashes[a[0]][f]; ok {
				delete(s.Hashes[a[0]], f)
				s.wrote = true
				n++
			}
		}
		if h, ok := s.Hashes[a[0]]; ok && len(h) == 0 {
			s.del(a[0])
		}
		return n
	case "HGETALL":
		var out []any
		var fs []string
		for f := range s.Hashes[a[0]] {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		for _, f := range fs {
			out = append(out, f, s.Hashes[a[0]][f])
		}
		return out
	}
	panic(Unsupported("redis command " + c))
}

func toLua(v any) any {
	switch x := v.(type) {
	case nil:
		return false
	case int64:
		return float64(x)
	case string:
		return x
	case Status:
		t := newTable()
		t.set("ok", string(x))
		return t
	case Err:
		t := newTable()
		t.set("err", string(x))
		return t
	case []any:
		t := newTable()
		for i, e := range x {
			t.set(float64(i+1), toLua(e))
		}
		return t
	}
	panic(Unsupported(fmt.Sprintf("reply %T", v)))
}

func fromLua(v any) any {
	switch x := v.(type) {
	case nil:
		return nil
	case bool:
		if x {
			return int64(1)
		}
		return nil
	case float64:
		return int64(x)
	case string:
		return x
	case *table:
		if e, ok := x.get("err").(string); ok {
			return Err(e)
		}
		if e, ok := x.get("ok").(string); ok {
			return Status(e)
		}
		var out []any
		for i := 1; i <= x.length(); i++ {
			out = append(out, fromLua(x.get(float64(i))))
		}
		return out
	}
	return nil
}

func (s *Server) number(f float64) string {
	if !s.OldNumbers && math.Abs(f) < 9.2e18/2 && f == math.Trunc(f) {
		return strconv.FormatInt(int64(f), 10)
	}
	return cFormat(f, 17)
}

// Eval runs a script atomically. Commands before an error keep their effect.
func (s *Server) Eval(script string, keys, argv []string) (reply any) {
	s.wrote = false
	defer func() {
		s.wrote = false
		if r := recover(); r != nil {
			e, ok := r.(luaError)
			if !ok {
				panic(r)
			}
			if t, ok := e.v.(*table); ok {
				reply = fromLua(t)
			} else {
				reply = Err("ERR Error running script: " + luaString(e.v))
			}
		}
	}()
	g := &scope{map[string]*any{}, library}
	list := func(l []string) *table {
		t := newTable()
		for i, x := range l {
			t.set(float64(i+1), x)
		}
		return t
	}
	g.def("KEYS", list(keys))
	g.def("ARGV", list(argv))
	do := func(a []any) any {
		args := make([]string, len(a))
		for i, x := range a {
			switch v := x.(type) {
			case string:
				args[i] = v
			case float64:
				args[i] = s.number(v)
			default:
				return Err("ERR Lua redis lib command arguments must be strings or integers")
			}
		}
		r := s.Do(args...)
		s.Log = append(s.Log, fmt.Sprintf("%q -> %v", args, r))
		return r
	}
	g.def("redis", lib(map[string]func([]any) []any{
		"call": func(a []any) []any {
			r := do(a)
			if e, ok := r.(Err); ok {
				panic(luaError{toLua(e)})
			}
			return []any{toLua(r)}
		},
		"pcall":        func(a []any) []any { return []any{toLua(do(a))} },
		"error_reply":  func(a []any) []any { return []any{toLua(Err(str(a, 0)))} },
		"status_reply": func(a []any) []any { return []any{toLua(Status(str(a, 0)))} },
		"log":          func(a []any) []any { return nil },
	}))
	f := cache[script]
	if f == nil {
		steps := 0
		p := &parser{t: lex(script), steps: &steps}
		b := p.block()
		if p.peek().kind != 'e' {
			raise("unexpected '%s'", p.peek().text)
		}
		f = func(sc *scope) (ctl, []any) { steps = 0; return b(sc) }
		cache[script] = f
	}
	_, v := f(g)
	return fromLua(first(v))
}

// Args converts client arguments the way clients send them.
func Args(in []any) ([]string, error) {
	out := make([]string, len(in))
	for i, a := range in {
		switch v := a.(type) {
		case string:
			out[i] = v
		case []byte:
			out[i] = string(v)
		case int:
			out[i] = strconv.Itoa(v)
		case int64:
			out[i] = strconv.FormatInt(v, 10)
		case int32:
			out[i] = strconv.FormatInt(int64(v), 10)
		case uint64:
			out[i] = strconv.FormatUint(v, 10)
		case float64:
			out[i] = strconv.FormatFloat(v, 'f', -1, 64)
		case bool:
			out[i] = "0"
			if v {
				out[i] = "1"
			}
		case time.Duration:
			out[i] = strconv.FormatInt(int64(v), 10)
		case nil:
			out[i] = ""
		default:
			return nil, fmt.Errorf("redis: can't marshal %T", a)
		}
	}
	return out, nil
}
