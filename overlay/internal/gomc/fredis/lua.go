package fredis

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"vsa/internal/gomc/rt"
)

// A small interpreter for the Lua subset scripts of this size use. Anything it
// does not know is an Unsupported panic, which the harness reports as an
// internal failure, never as a violation.

// Unsupported is thrown for constructs outside the subset.
type Unsupported = rt.Unsupported

type table struct {
	m      map[any]any
	strict string // library name: unknown members are outside the subset
}

func newTable() *table { return &table{m: map[any]any{}} }

func (t *table) get(k any) any {
	v, ok := t.m[k]
	if !ok && t.strict != "" {
		panic(Unsupported("lua function " + t.strict + "." + luaString(k)))
	}
	return v
}
func (t *table) set(k, v any) {
	if v == nil {
		delete(t.m, k)
	} else {
		t.m[k] = v
	}
}
func (t *table) length() int {
	n := 0
	for {
		if _, ok := t.m[float64(n+1)]; !ok {
			return n
		}
		n++
	}
}

// luaError is a Lua error being raised.
type luaError struct{ v any }

func raise(f string, a ...any) { panic(luaError{fmt.Sprintf(f, a...)}) }

type function func(args []any) []any

// ---------------------------------------------------------------- lexer

type token struct {
	kind byte // 'n'ame, 'k'eyword, 's'tring, 'd'number, 'o'perator, 'e'of
	text string
	num  float64
}

var keywords = map[string]bool{"and": true, "break": true, "do": true, "else": true, "elseif": true, "end": true, "false": true, "for": true, "function": true, "if": true, "in": true, "local": true, "nil": true, "not": true, "or": true, "repeat": true, "return": true, "then": true, "true": true, "until": true, "while": true}

func lex(src string) []token {
	var out []token
	i := 0
	alpha := func(c byte) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
	long := func(at int) (string, int, bool) {
		if at >= len(src) || src[at] != '[' {
			return "", at, false
		}
		j := at + 1
		for j < len(src) && src[j] == '=' {
			j++
		}
		if j >= len(src) || src[j] != '[' {
			return "", at, false
		}
		end := "]" + strings.Repeat("=", j-at-1) + "]"
		k := strings.Index(src[j+1:], end)
		if k < 0 {
			raise("unfinished long string")
		}
		return strings.TrimPrefix(src[j+1:j+1+k], "\n"), j + 1 + k + len(end), true
	}
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "--"):
			if _, e, ok := long(i + 2); ok {
				i = e
				continue
			}
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '[':
			if s, e, ok := long(i); ok {
				out = append(out, token{'s', s, 0})
				i = e
				continue
			}
			out = append(out, token{'o', "[", 0})
			i++
		case c == '"' || c == '\'':
			var b strings.Builder
			i++
			for i < len(src) && src[i] != c {
				if src[i] == '\\' && i+1 < len(src) {
					i++
					switch src[i] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					case 'r':
						b.WriteByte('\r')
					default:
						if src[i] >= '0' && src[i] <= '9' {
							n, k := 0, 0
							for k < 3 && i < len(src) && src[i] >= '0' && src[i] <= '9' {
								n = n*10 + int(src[i]-'0')
								i++
								k++
							}
							b.WriteByte(byte(n))
							continue
						}
						b.WriteByte(src[i])
					}
					i++
					continue
				}
				b.WriteByte(src[i])
				i++
			}
			i++
			out = append(out, token{'s', b.String(), 0})
		case c >= '0' && c <= '9' || c == '.' && i+1 < len(src) && src[i+1] >= '0' && src[i+1] <= '9':
			j := i
			for j < len(src) && (alpha(src[j]) || src[j] == '.' || (src[j] == '+' || src[j] == '-') && (src[j-1] == 'e' || src[j-1] == 'E')) {
				j++
			}
			f, ok := toNumber(src[i:j])
			if !ok {
				raise("malformed number %s", src[i:j])
			}
			out = append(out, token{'d', src[i:j], f})
			i = j
		case alpha(c):
			j := i
			for j < len(src) && alpha(src[j]) {
				j++
			}
			k := byte('n')
			if keywords[src[i:j]] {
				k = 'k'
			}
			out = append(out, token{k, src[i:j], 0})
			i = j
		default:
			op := string(c)
			for _, o := range []string{"...", "==", "~=", "<=", ">=", ".."} {
				if strings.HasPrefix(src[i:], o) {
					op = o
					break
				}
			}
			out = append(out, token{'o', op, 0})
			i += len(op)
		}
	}
	return append(out, token{kind: 'e'})
}

func toNumber(s string) (float64, bool) {
	s = strings.TrimSpace(s)
	if s == "" {
		return 0, false
	}
	l := strings.ToLower(s)
	if strings.HasPrefix(l, "0x") {
		n, err := strconv.ParseUint(l[2:], 16, 64)
		return float64(n), err == nil
	}
	if strings.ContainsAny(l, "xp_in") && !strings.Contains(l, "e") {
		return 0, false
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil && !math.IsInf(f, 0) {
		return 0, false
	}
	return f, true
}

// ---------------------------------------------------------------- parser + evaluator

// Statements and expressions are compiled to closures.
type scope struct {
	vars map[string]*any
	up   *scope
}

func (s *scope) find(n string) *any {
	for ; s != nil; s = s.up {
		if v, ok := s.vars[n]; ok {
			return v
		}
	}
	return nil
}
func (s *scope) child() *scope { return &scope{map[string]*any{}, s} }
func (s *scope) def(n string, v any) {
	x := v
	s.vars[n] = &x
}

type ctl int

const (
	next ctl = iota
	brk
	ret
)

type expr func(*scope) any
type multi func(*scope) []any
type stmt func(*scope) (ctl, []any)

type parser struct {
	t     []token
	i     int
	steps *int
}

func (p *parser) peek() token { return p.t[p.i] }
func (p *parser) is(s string) bool {
	t := p.t[p.i]
	return (t.kind == 'k' || t.kind == 'o') && t.text == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		raise("'%s' expected near '%s'", s, p.peek().text)
	}
}
func (p *parser) name() string {
	t := p.peek()
	if t.kind != 'n' {
		raise("name expected near '%s'", t.text)
	}
	p.i++
	return t.text
}

func (p *parser) block(ends ...string) stmt {
	var ss []stmt
	for {
		t := p.peek()
		if t.kind == 'e' {
			break
		}
		stop := false
		for _, e := range ends {
			if p.is(e) {
				stop = true
			}
		}
		if stop {
			break
		}
		if p.accept(";") {
			continue
		}
		if p.accept("return") {
			var es multi = func(*scope) []any { return nil }
			if !(p.peek().kind == 'e' || p.is("end") || p.is("else") || p.is("elseif") || p.is("until") || p.is(";")) {
				es = p.exprList()
			}
			p.accept(";")
			ss = append(ss, func(s *scope) (ctl, []any) { return ret, es(s) })
			break
		}
		ss = append(ss, p.statement())
	}
	steps := p.steps
	return func(s *scope) (ctl, []any) {
		s = s.child()
		for _, x := range ss {
			if *steps++; *steps > 100000 {
				raise("script runs too long")
			}
			if c, v := x(s); c != next {
				return c, v
			}
		}
		return next, nil
	}
}

func (p *parser) statement() stmt {
	switch {
	case p.accept("local"):
		if p.accept("function") {
			n := p.name()
			f := p.funcBody()
			return func(s *scope) (ctl, []any) {
				s.def(n, nil)
				*s.find(n) = f(s)
				return next, nil
			}
		}
		names := []string{p.name()}
		for p.accept(",") {
			names = append(names, p.name())
		}
		var es multi = func(*scope) []any { return nil }
		if p.accept("=") {
			es = p.exprList()
		}
		return func(s *scope) (ctl, []any) {
			vs := es(s)
			for i, n := range names {
				var v any
				if i < len(vs) {
					v = vs[i]
				}
				s.def(n, v)
			}
			return next, nil
		}
	case p.accept("if"):
		var conds []expr
		var bodies []stmt
		conds = append(conds, p.expr(0))
		p.expect("then")
		bodies = append(bodies, p.block("elseif", "else", "end"))
		var els stmt
		for {
			if p.accept("elseif") {
				conds = append(conds, p.expr(0))
				p.expect("then")
				bodies = append(bodies, p.block("elseif", "else", "end"))
				continue
			}
			if p.accept("else") {
				els = p.block("end")
			}
			p.expect("end")
			break
		}
		return func(s *scope) (ctl, []any) {
			for i, c := range conds {
				if truth(c(s)) {
					return bodies[i](s)
				}
			}
			if els != nil {
				return els(s)
			}
			return next, nil
		}
	case p.accept("do"):
		b := p.block("end")
		p.expect("end")
		return b
	case p.accept("while"):
		c := p.expr(0)
		p.expect("do")
		b := p.block("end")
		p.expect("end")
		steps := p.steps
		return func(s *scope) (ctl, []any) {
			for truth(c(s)) {
				if *steps++; *steps > 100000 {
					raise("script runs too long")
				}
				if k, v := b(s); k == brk {
					break
				} else if k == ret {
					return k, v
				}
			}
			return next, nil
		}
	case p.accept("for"):
		names := []string{p.name()}
		if p.accept("=") {
			from := p.expr(0)
			p.expect(",")
			to := p.expr(0)
			var step expr = func(*scope) any { return 1.0 }
			if p.accept(",") {
				step = p.expr(0)
			}
			p.expect("do")
			b := p.block("end")
			p.expect("end")
			return func(s *scope) (ctl, []any) {
				a, z, d := num(from(s)), num(to(s)), num(step(s))
				for x := a; d > 0 && x <= z || d < 0 && x >= z; x += d {
					in := s.child()
					in.def(names[0], x)
					if k, v := b(in); k == brk {
						break
					} else if k == ret {
						return k, v
					}
				}
				return next, nil
			}
		}
		for p.accept(",") {
			names = append(names, p.name())
		}
		p.expect("in")
		it := p.exprList()
		p.expect("do")
		b := p.block("end")
		p.expect("end")
		return func(s *scope) (ctl, []any) {
			vs := append(it(s), nil, nil, nil)
			f, st, c := vs[0], vs[1], vs[2]
			for {
				r := append(call(f, []any{st, c}), make([]any, len(names))...)
				if r[0] == nil {
					return next, nil
				}
				c = r[0]
				in := s.child()
				for i, n := range names {
					in.def(n, r[i])
				}
				if k, v := b(in); k == brk {
					return next, nil
				} else if k == ret {
					return k, v
				}
			}
		}
	case p.accept("break"):
		return func(*scope) (ctl, []any) { return brk, nil }
	case p.accept("function"):
		raise("Script attempted to create global variable '%s'", p.name())
	case p.is("repeat"):
		panic(Unsupported("lua statement " + p.peek().text))
	}
	// expression statement or assignment
	targets := []suffixed{p.suffixed()}
	if targets[0].callOnly && !p.is("=") && !p.is(",") {
		f := targets[0].many
		return func(s *scope) (ctl, []any) { f(s); return next, nil }
	}
	for p.accept(",") {
		targets = append(targets, p.suffixed())
	}
	p.expect("=")
	es := p.exprList()
	return func(s *scope) (ctl, []any) {
		vs := es(s)
		for i, t := range targets {
			var v any
			if i < len(vs) {
				v = vs[i]
			}
			if t.set == nil {
				raise("cannot assign")
			}
			t.set(s, v)
		}
		return next, nil
	}
}

func (p *parser) funcBody() expr {
	p.expect("(")
	var ps []string
	for !p.accept(")") {
		ps = append(ps, p.name())
		p.accept(",")
	}
	b := p.block("end")
	p.expect("end")
	return func(s *scope) any {
		return function(func(args []any) []any {
			in := s.child()
			for i, n := range ps {
				var v any
				if i < len(args) {
					v = args[i]
				}
				in.def(n, v)
			}
			_, r := b(in)
			return r
		})
	}
}

func (p *parser) exprList() multi {
	var es []expr
	var last multi
	for {
		at := p.i
		e := p.expr(0)
		last = nil
		// a list ending in a plain call yields all its results
		if c := p.callAt(at); c != nil {
			last = c
		}
		es = append(es, e)
		if !p.accept(",") {
			break
		}
	}
	n := len(es)
	return func(s *scope) []any {
		var out []any
		for i, e := range es {
			if i == n-1 && last != nil {
				out = append(out, last(s)...)
			} else {
				out = append(out, e(s))
			}
		}
		return out
	}
}

// callAt reparses the expression that started at token i and ended here, and
// returns its multi-value form when it is a call.
func (p *parser) callAt(i int) multi {
	end := p.i
	if k := p.t[i].kind; k != 'n' && !(k == 'o' && p.t[i].text == "(") {
		return nil
	}
	p.i = i
	x := p.suffixed()
	ok := p.i == end && x.callOnly
	p.i = end
	if ok {
		return x.many
	}
	return nil
}

type suffixed struct {
	get      expr
	set      func(*scope, any)
	many     multi
	callOnly bool
}

func first(v []any) any {
	if len(v) == 0 {
		return nil
	}
	return v[0]
}

func (p *parser) suffixed() suffixed {
	var x suffixed
	if p.accept("(") {
		e := p.expr(0)
		p.expect(")")
		x = suffixed{get: e}
	} else {
		n := p.name()
		x = suffixed{get: func(s *scope) any {
			v := s.find(n)
			if v == nil {
				if missing[n] {
					panic(Unsupported("lua library " + n))
				}
				raise("Script attempted to access nonexistent global variable '%s'", n)
			}
			return *v
		}, set: func(s *scope, v any) {
			w := s.find(n)
			if w == nil {
				raise("Script attempted to create global variable '%s'", n)
			}
			*w = v
		}}
	}
	for {
		switch {
		case p.accept("."):
			x = index(x.get, constant(p.name()))
		case p.accept("["):
			k := p.expr(0)
			p.expect("]")
			x = index(x.get, k)
		case p.is("(") || p.peek().kind == 's' || p.is("{"):
			x = callOf(x.get, p.args())
		case p.accept(":"):
			n := p.name()
			obj := x.get
			as := p.args()
			m := func(s *scope) []any {
				o := obj(s)
				return call(getIndex(o, n), append([]any{o}, as(s)...))
			}
			x = suffixed{get: func(s *scope) any { return first(m(s)) }, many: m, callOnly: true}
		default:
			return x
		}
	}
}

func constant(v any) expr { return func(*scope) any { return v } }

func index(o, k expr) suffixed {
	return suffixed{
		get: func(s *scope) any { return getIndex(o(s), k(s)) },
		set: func(s *scope, v any) {
			t, ok := o(s).(*table)
			if !ok {
				raise("attempt to index a non-table value")
			}
			t.set(k(s), v)
		}}
}

func getIndex(o, k any) any {
	switch t := o.(type) {
	case *table:
		return t.get(k)
	case string:
		return stringLib.get(k)
	}
	raise("attempt to index a %s value", typeName(o))
	return nil
}

func callOf(f expr, as multi) suffixed {
	m := func(s *scope) []any { g := f(s); return call(g, as(s)) }
	return suffixed{get: func(s *scope) any { return first(m(s)) }, many: m, callOnly: true}
}

func call(f any, args []any) []any {
	g, ok := f.(function)
	if !ok {
		raise("attempt to call a %s value", typeName(f))
	}
	return g(args)
}

func (p *parser) args() multi {
	if t := p.peek(); t.kind == 's' {
		p.i++
		return func(*scope) []any { return []any{t.text} }
	}
	if p.is("{") {
		e := p.table()
		return func(s *scope) []any { return []any{e(s)} }
	}
	p.expect("(")
	if p.accept(")") {
		return func(*scope) []any { return nil }
	}
	es := p.exprList()
	p.expect(")")
	return es
}

func (p *parser) table() expr {
	p.expect("{")
	type item struct{ k, v expr }
	var items []item
	n := 0
	for !p.accept("}") {
		switch {
		case p.accept("["):
			k := p.expr(0)
			p.expect("]")
			p.expect("=")
			items = append(items, item{k, p.expr(0)})
		case p.peek().kind == 'n' && p.t[p.i+1].kind == 'o' && p.t[p.i+1].text == "=":
			k := p.name()
			p.i++
			items = append(items, item{constant(k), p.expr(0)})
		default:
			n++
			items = append(items, item{constant(float64(n)), p.expr(0)})
		}
		if !p.accept(",") {
			p.accept(";")
		}
	}
	return func(s *scope) any {
		t := newTable()
		for _, it := range items {
			t.set(it.k(s), it.v(s))
		}
		return t
	}
}

var prec = map[string]int{"or": 1, "and": 2, "<": 3, ">": 3, "<=": 3, ">=": 3, "~=": 3, "==": 3, "..": 4, "+": 5, "-": 5, "*": 6, "/": 6, "%": 6}

const unary = 7

func (p *parser) expr(min int) expr {
	l := p.unary()
	for {
		t := p.peek()
		if t.kind != 'o' && t.kind != 'k' {
			return l
		}
		if t.text == "^" {
			panic(Unsupported("lua operator ^"))
		}
		pr, ok := prec[t.text]
		if !ok || pr <= min {
			return l
		}
		p.i++
		m := pr
		if t.text == ".." {
			m = pr - 1 // right associative
		}
		r := p.expr(m)
		l = binary(t.text, l, r)
	}
}

func (p *parser) unary() expr {
	switch {
	case p.accept("not"):
		e := p.expr(unary)
		return func(s *scope) any { return !truth(e(s)) }
	case p.accept("-"):
		e := p.expr(unary)
		return func(s *scope) any { return -num(e(s)) }
	case p.accept("#"):
		e := p.expr(unary)
		return func(s *scope) any {
			switch v := e(s).(type) {
			case string:
				return float64(len(v))
			case *table:
				return float64(v.length())
			}
			raise("attempt to get length")
			return nil
		}
	}
	t := p.peek()
	switch t.kind {
	case 's':
		p.i++
		return constant(t.text)
	case 'd':
		p.i++
		return constant(t.num)
	case 'k':
		switch t.text {
		case "nil":
			p.i++
			return constant(nil)
		case "true":
			p.i++
			return constant(true)
		case "false":
			p.i++
			return constant(false)
		case "function":
			p.i++
			return p.funcBody()
		}
	}
	if p.is("{") {
		return p.table()
	}
	return p.suffixed().get
}

func truth(v any) bool {
	b, ok := v.(bool)
	return v != nil && (!ok || b)
}

func num(v any) float64 {
	switch x := v.(type) {
	case float64:
		return x
	case string:
		if f, ok := toNumber(x); ok {
			return f
		}
	}
	raise("attempt to perform arithmetic on a %s value", typeName(v))
	return 0
}

func typeName(v any) string {
	switch v.(type) {
	case nil:
		return "nil"
	case bool:
		return "boolean"
	case float64:
		return "number"
	case string:
		return "string"
	case *table:
		return "table"
	}
	return "function"
}

// luaString is tostring for numbers: "%.14g".
func luaString(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return strconv.FormatBool(x)
	case float64:
		return cFormat(x, 14)
	case string:
		return x
	}
	return typeName(v)
}

// cFormat is C's "%.<p>g".
func cFormat(x float64, p int) string {
	switch {
	case math.IsInf(x, 1):
		return "inf"
	case math.IsInf(x, -1):
		return "-inf"
	case math.IsNaN(x):
		return "nan"
	}
	return fmt.Sprintf("%.*g", p, x)
}

func concat(v any) string {
	switch v.(type) {
	case string, float64:
		return luaString(v)
	}
	raise("attempt to concatenate a %s value", typeName(v))
	return ""
}

func less(a, b any) bool {
	switch x := a.(type) {
	case float64:
		if y, ok := b.(float64); ok {
			return x < y
		}
	case string:
		if y, ok := b.(string); ok {
			return x < y
		}
	}
	raise("attempt to compare %s with %s", typeName(a), typeName(b))
	return false
}

func binary(op string, l, r expr) expr {
	switch op {
	case "or":
		return func(s *scope) any {
			if v := l(s); truth(v) {
				return v
			}
			return r(s)
		}
	case "and":
		return func(s *scope) any {
			if v := l(s); !truth(v) {
				return v
			}
			return r(s)
		}
	}
	return func(s *scope) any {
		a, b := l(s), r(s)
		switch op {
		case "==":
			return a == b
		case "~=":
			return a != b
		case "<":
			return less(a, b)
		case ">":
			return less(b, a)
		case "<=":
			return !less(b, a)
		case ">=":
			return !less(a, b)
		case "..":
			return concat(a) + concat(b)
		}
		x, y := num(a), num(b)
		switch op {
		case "+":
			return x + y
		case "-":
			return x - y
		case "*":
			return x * y
		case "/":
			return x / y
		}
		return x - math.Floor(x/y)*y
	}
}

// ---------------------------------------------------------------- library

func arg(a []any, i int) any {
	if i < len(a) {
		return a[i]
	}
	return nil
}

func str(a []any, i int) string {
	switch v := arg(a, i).(type) {
	case string:
		return v
	case float64:
		return luaString(v)
	}
	raise("bad argument #%d (string expected, got %s)", i+1, typeName(arg(a, i)))
	return ""
}

// missing lists what a real server offers and this interpreter does not.
var missing = map[string]bool{"cjson": true, "cmsgpack": true, "struct": true, "bit": true, "table": true, "next": true, "pairs": true, "select": true, "xpcall": true, "rawget": true, "rawset": true, "setmetatable": true, "getmetatable": true, "loadstring": true, "os": true}

func lib(m map[string]func([]any) []any) *table {
	t := newTable()
	for k, f := range m {
		t.set(k, function(f))
	}
	t.strict = "library"
	return t
}

var stringLib = lib(map[string]func([]any) []any{
	"sub": func(a []any) []any {
		s := str(a, 0)
		i, j := int(num(arg(a, 1))), -1
		if len(a) > 2 {
			j = int(num(a[2]))
		}
		if i < 0 {
			i = max(len(s)+i+1, 1)
		} else if i == 0 {
			i = 1
		}
		if j < 0 {
			j = len(s) + j + 1
		} else if j > len(s) {
			j = len(s)
		}
		if i > j {
			return []any{""}
		}
		return []any{s[i-1 : j]}
	},
	"len":   func(a []any) []any { return []any{float64(len(str(a, 0)))} },
	"lower": func(a []any) []any { return []any{strings.ToLower(str(a, 0))} },
	"upper": func(a []any) []any { return []any{strings.ToUpper(str(a, 0))} },
	"byte": func(a []any) []any {
		s, i := str(a, 0), 1
		if len(a) > 1 {
			i = int(num(a[1]))
		}
		if i < 1 || i > len(s) {
			return nil
		}
		return []any{float64(s[i-1])}
	},
	"format": func(a []any) []any {
		f := str(a, 0)
		var b strings.Builder
		n := 1
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				b.WriteByte(f[i])
				continue
			}
			j := i + 1
			for j < len(f) && strings.IndexByte("-+ #0123456789.", f[j]) >= 0 {
				j++
			}
			if j >= len(f) {
				raise("invalid format")
			}
			spec := f[i:j]
			switch f[j] {
			case '%':
				b.WriteByte('%')
			case 'd', 'i':
				b.WriteString(fmt.Sprintf(spec+"d", int64(num(arg(a, n)))))
				n++
			case 'f', 'g', 'e':
				b.WriteString(fmt.Sprintf(f[i:j+1], num(arg(a, n))))
				n++
			case 's':
				b.WriteString(fmt.Sprintf(spec+"s", luaString(arg(a, n))))
				n++
			default:
				panic(Unsupported("string.format " + f[i:j+1]))
			}
			i = j
		}
		return []any{b.String()}
	},
})

var mathLib = lib(map[string]func([]any) []any{
	"abs":   func(a []any) []any { return []any{math.Abs(num(arg(a, 0)))} },
	"floor": func(a []any) []any { return []any{math.Floor(num(arg(a, 0)))} },
	"ceil":  func(a []any) []any { return []any{math.Ceil(num(arg(a, 0)))} },
	"max": func(a []any) []any {
		m := num(arg(a, 0))
		for _, x := range a {
			m = math.Max(m, num(x))
		}
		return []any{m}
	},
	"min": func(a []any) []any {
		m := num(arg(a, 0))
		for _, x := range a {
			m = math.Min(m, num(x))
		}
		return []any{m}
	},
})

func globals() map[string]any {
	iter := function(func(a []any) []any {
		t, _ := arg(a, 0).(*table)
		i := num(arg(a, 1)) + 1
		v := t.get(i)
		if v == nil {
			return []any{nil}
		}
		return []any{i, v}
	})
	return map[string]any{
		"string": stringLib, "math": mathLib,
		"tonumber": function(func(a []any) []any {
			switch v := arg(a, 0).(type) {
			case float64:
				return []any{v}
			case string:
				if f, ok := toNumber(v); ok {
					return []any{f}
				}
			}
			return []any{nil}
		}),
		"tostring": function(func(a []any) []any { return []any{luaString(arg(a, 0))} }),
		"type":     function(func(a []any) []any { return []any{typeName(arg(a, 0))} }),
		"ipairs":   function(func(a []any) []any { return []any{iter, arg(a, 0), 0.0} }),
		"unpack": function(func(a []any) []any {
			t, _ := arg(a, 0).(*table)
			var out []any
			for i := 1; i <= t.length(); i++ {
				out = append(out, t.get(float64(i)))
			}
			return out
		}),
		"error": function(func(a []any) []any { panic(luaError{arg(a, 0)}) }),
		"assert": function(func(a []any) []any {
			if !truth(arg(a, 0)) {
				raise("assertion failed!")
			}
			return a
		}),
		"pcall": function(func(a []any) (out []any) {
			defer func() {
				if r := recover(); r != nil {
					e, ok := r.(luaError)
					if !ok {
						panic(r)
					}
					out = []any{false, e.v}
				}
			}()
			return append([]any{true}, call(arg(a, 0), a[1:])...)
		}),
	}
}
