package fpg

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"vsa/internal/gomc/rt"
)

// A SQL subset large enough for small transactional statements. Anything else
// is rt.Unsupported, an internal failure rather than a violation.

func unsupported(f string, a ...any) { panic(rt.Unsupported("SQL: " + fmt.Sprintf(f, a...))) }

// pgError is an error of the statement.
type pgError string

func (e pgError) Error() string { return "pq: " + string(e) }

type tok struct {
	kind byte // i dent, n umber, s tring, p aram, o perator, e of
	text string
}

func lex(src string) []tok {
	var out []tok
	i := 0
	word := func(c byte) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "--"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case strings.HasPrefix(src[i:], "/*"):
			k := strings.Index(src[i:], "*/")
			if k < 0 {
				panic(pgError("unterminated comment"))
			}
			i += k + 2
		case c == '\'' || c == '"':
			j := i + 1
			var b strings.Builder
			for j < len(src) {
				if src[j] == c {
					if j+1 < len(src) && src[j+1] == c {
						j++
					} else {
						break
					}
				}
				b.WriteByte(src[j])
				j++
			}
			k := byte('s')
			if c == '"' {
				k = 'i'
			}
			out = append(out, tok{k, b.String()})
			i = j + 1
		case c == '$' || c >= '0' && c <= '9':
			j := i + 1
			for j < len(src) && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			if c == '$' {
				out = append(out, tok{'p', src[i+1 : j]})
			} else {
				out = append(out, tok{'n', src[i:j]})
			}
			i = j
		case word(c):
			j := i
			for j < len(src) && word(src[j]) {
				j++
			}
			out = append(out, tok{'i', strings.ToLower(src[i:j])})
			i = j
		default:
			op := string(c)
			for _, o := range []string{"<=", ">=", "<>", "!=", "::", "||"} {
				if strings.HasPrefix(src[i:], o) {
					op = o
				}
			}
			out = append(out, tok{'o', op})
			i += len(op)
		}
	}
	return append(out, tok{kind: 'e'})
}

// env resolves names while an expression is evaluated.
type env struct {
	q    *query
	rows map[string]map[string]any // by table name or alias
	up   *env
}

func (e *env) col(tbl, name string) any {
	for x := e; x != nil; x = x.up {
		for t, r := range x.rows {
			if tbl != "" && t != tbl {
				continue
			}
			if v, ok := r[name]; ok {
				return v
			}
		}
	}
	panic(pgError("column " + tbl + "." + name + " does not exist"))
}

type expr func(*env) any

type parser struct {
	t []tok
	i int
}

func (p *parser) peek() tok { return p.t[p.i] }
func (p *parser) is(words ...string) bool {
	for j, w := range words {
		if p.i+j >= len(p.t) {
			return false
		}
		t := p.t[p.i+j]
		if !(t.kind == 'i' || t.kind == 'o') || t.text != w {
			return false
		}
	}
	return true
}
func (p *parser) accept(words ...string) bool {
	if p.is(words...) {
		p.i += len(words)
		return true
	}
	return false
}
func (p *parser) expect(words ...string) {
	if !p.accept(words...) {
		panic(pgError(fmt.Sprintf("syntax error at or near %q, want %v", p.peek().text, words)))
	}
}
func (p *parser) ident() string {
	t := p.peek()
	if t.kind != 'i' {
		panic(pgError(fmt.Sprintf("syntax error at or near %q", t.text)))
	}
	p.i++
	return t.text
}
func (p *parser) idents() []string {
	p.expect("(")
	out := []string{p.ident()}
	for p.accept(",") {
		out = append(out, p.ident())
	}
	p.expect(")")
	return out
}

func (p *parser) expr() expr {
	l := p.and()
	for p.accept("or") {
		a, b := l, p.and()
		l = func(e *env) any {
			x, y := a(e), b(e)
			if x == true || y == true {
				return true
			}
			if x == nil || y == nil {
				return nil
			}
			return false
		}
	}
	return l
}

func (p *parser) and() expr {
	l := p.not()
	for p.accept("and") {
		a, b := l, p.not()
		l = func(e *env) any {
			x, y := a(e), b(e)
			if x == false || y == false {
				return false
			}
			if x == nil || y == nil {
				return nil
			}
			return true
		}
	}
	return l
}

func (p *parser) not() expr {
	if p.is("not") && !p.is("not", "exists") {
		p.i++
		a := p.not()
		return func(e *env) any { return neg(a(e)) }
	}
	return p.cmp()
}

func neg(v any) any {
	if b, ok := v.(bool); ok {
		return !b
	}
	return nil
}

// order compares two values, nil if either is NULL.
func order(a, b any) any {
	if a == nil || b == nil {
		return nil
	}
	switch x := a.(type) {
	case *big.Int:
		if y, ok := b.(*big.Int); ok {
			return x.Cmp(y)
		}
	case string:
		if y, ok := b.(string); ok {
			return strings.Compare(x, y)
		}
	case bool:
		if y, ok := b.(bool); ok {
			if x == y {
				return 0
			}
			return 1
		}
	}
	panic(pgError(fmt.Sprintf("operator does not exist: %T = %T", a, b)))
}

func (p *parser) cmp() expr {
	l := p.add()
	for {
		switch {
		case p.accept("is", "not", "null"):
			a := l
			l = func(e *env) any { return a(e) != nil }
		case p.accept("is", "null"):
			a := l
			l = func(e *env) any { return a(e) == nil }
		case p.is("is", "distinct", "from"), p.is("is", "not", "distinct", "from"):
			n := p.is("is", "not")
			p.i += 3
			if n {
				p.i++
			}
			a, b := l, p.add()
			l = func(e *env) any {
				x, y := a(e), b(e)
				d := (x == nil) != (y == nil) || x != nil && order(x, y) != 0
				return d != n
			}
		case p.is("in"), p.is("not", "in"):
			n := p.accept("not")
			p.expect("in")
			p.expect("(")
			var items func(*env) []any
			if p.is("select") {
				s := p.sel()
				items = func(e *env) []any {
					var out []any
					for _, r := range s.run(e) {
						out = append(out, r[0])
					}
					return out
				}
			} else {
				es := []expr{p.expr()}
				for p.accept(",") {
					es = append(es, p.expr())
				}
				items = func(e *env) []any {
					var out []any
					for _, x := range es {
						out = append(out, x(e))
					}
					return out
				}
			}
			p.expect(")")
			a := l
			l = func(e *env) any {
				var res any = false
				x := a(e)
				for _, y := range items(e) {
					if o := order(x, y); o == nil {
						res = nil
					} else if o == 0 {
						res = true
						break
					}
				}
				if n {
					return neg(res)
				}
				return res
			}
		default:
			t := p.peek()
			if t.kind != 'o' || !strings.Contains(" = < > <= >= <> != ", " "+t.text+" ") {
				return l
			}
			p.i++
			a, b := l, p.add()
			l = func(e *env) any {
				o := order(a(e), b(e))
				if o == nil {
					return nil
				}
				c := o.(int)
				switch t.text {
				case "=":
					return c == 0
				case "<":
					return c < 0
				case ">":
					return c > 0
				case "<=":
					return c <= 0
				case ">=":
					return c >= 0
				}
				return c != 0
			}
		}
	}
}

var minInt, maxInt = big.NewInt(-1 << 63), new(big.Int).SetUint64(1<<63 - 1)

func arith(op string, a, b any) any {
	if a == nil || b == nil {
		return nil
	}
	x, ok1 := a.(*big.Int)
	y, ok2 := b.(*big.Int)
	if !ok1 || !ok2 {
		panic(pgError(fmt.Sprintf("operator does not exist: %T %s %T", a, op, b)))
	}
	r := new(big.Int)
	switch op {
	case "+":
		r.Add(x, y)
	case "-":
		r.Sub(x, y)
	case "*":
		r.Mul(x, y)
	case "/":
		if y.Sign() == 0 {
			panic(pgError("division by zero"))
		}
		r.Quo(x, y)
	}
	if r.Cmp(minInt) < 0 || r.Cmp(maxInt) > 0 {
		panic(pgError("bigint out of range"))
	}
	return r
}

func (p *parser) add() expr {
	l := p.mul()
	for p.is("+") || p.is("-") {
		op := p.peek().text
		p.i++
		a, b := l, p.mul()
		l = func(e *env) any { return arith(op, a(e), b(e)) }
	}
	return l
}

func (p *parser) mul() expr {
	l := p.unary()
	for p.is("*") || p.is("/") {
		op := p.peek().text
		p.i++
		a, b := l, p.unary()
		l = func(e *env) any { return arith(op, a(e), b(e)) }
	}
	return l
}

func (p *parser) unary() expr {
	if p.accept("-") {
		a := p.unary()
		return func(e *env) any { return arith("-", big.NewInt(0), a(e)) }
	}
	x := p.primary()
	for p.accept("::") {
		p.ident()
	}
	return x
}

func (p *parser) primary() expr {
	t := p.peek()
	p.i++
	switch t.kind {
	case 'n':
		n, _ := new(big.Int).SetString(t.text, 10)
		return func(*env) any { return n }
	case 's':
		return func(*env) any { return t.text }
	case 'p':
		n, _ := strconv.Atoi(t.text)
		return func(e *env) any {
			if n < 1 || n > len(e.q.args) {
				panic(pgError("there is no parameter $" + t.text))
			}
			return e.q.args[n-1]
		}
	case 'o':
		if t.text == "(" {
			if p.is("select") {
				s := p.sel()
				p.expect(")")
				return func(e *env) any {
					r := s.run(e)
					if len(r) == 0 {
						return nil
					}
					return r[0][0]
				}
			}
			x := p.expr()
			p.expect(")")
			return x
		}
		if t.text == "*" {
			return func(*env) any { return big.NewInt(1) }
		}
	case 'i':
		switch t.text {
		case "null":
			return func(*env) any { return nil }
		case "true":
			return func(*env) any { return true }
		case "false":
			return func(*env) any { return false }
		case "exists":
			p.expect("(")
			s := p.sel()
			p.expect(")")
			return func(e *env) any { return len(s.run(e)) > 0 }
		case "not":
			if p.is("exists") {
				x := p.primary()
				return func(e *env) any { return neg(x(e)) }
			}
		case "case":
			type arm struct{ c, v expr }
			var arms []arm
			for p.accept("when") {
				c := p.expr()
				p.expect("then")
				arms = append(arms, arm{c, p.expr()})
			}
			var els expr = func(*env) any { return nil }
			if p.accept("else") {
				els = p.expr()
			}
			p.expect("end")
			return func(e *env) any {
				for _, a := range arms {
					if a.c(e) == true {
						return a.v(e)
					}
				}
				return els(e)
			}
		}
		if p.accept("(") {
			var as []expr
			for !p.accept(")") {
				as = append(as, p.expr())
				p.accept(",")
			}
			return fn(t.text, as)
		}
		if p.accept(".") {
			c := p.ident()
			return func(e *env) any { return e.col(t.text, c) }
		}
		return func(e *env) any { return e.col("", t.text) }
	}
	panic(pgError(fmt.Sprintf("syntax error at or near %q", t.text)))
}

func fn(name string, as []expr) expr {
	switch name {
	case "coalesce":
		return func(e *env) any {
			for _, a := range as {
				if v := a(e); v != nil {
					return v
				}
			}
			return nil
		}
	case "greatest", "least":
		want := 1
		if name == "least" {
			want = -1
		}
		return func(e *env) any {
			var best any
			for _, a := range as {
				v := a(e)
				if v == nil {
					continue
				}
				if best == nil || order(v, best) == want {
					best = v
				}
			}
			return best
		}
	case "now":
		return func(*env) any { return "now" }
	case "abs":
		return func(e *env) any {
			v := as[0](e)
			if v == nil {
				return nil
			}
			return new(big.Int).Abs(v.(*big.Int))
		}
	case "nullif":
		return func(e *env) any {
			a, b := as[0](e), as[1](e)
			if order(a, b) == 0 {
				return nil
			}
			return a
		}
	}
	unsupported("function %s", name)
	return nil
}

// ---------------------------------------------------------------- statements

type sel struct {
	table, alias string
	cols         []expr
	where        expr
	lock         bool
}

var stopWords = map[string]bool{"where": true, "set": true, "on": true, "for": true, "values": true, "returning": true, "from": true, "limit": true, "order": true, "select": true, "group": true, "join": true, "left": true, "inner": true}

func (p *parser) alias(name string) string {
	if p.accept("as") {
		return p.ident()
	}
	if t := p.peek(); t.kind == 'i' && !stopWords[t.text] {
		p.i++
		return t.text
	}
	return name
}

func (p *parser) sel() *sel {
	p.expect("select")
	s := &sel{}
	for {
		s.cols = append(s.cols, p.expr())
		if p.accept("as") {
			p.ident()
		}
		if !p.accept(",") {
			break
		}
	}
	if p.accept("from") {
		s.table = p.ident()
		s.alias = p.alias(s.table)
		if p.is(",") || p.is("join") || p.is("left") || p.is("inner") {
			unsupported("join")
		}
	}
	if p.accept("where") {
		s.where = p.expr()
	}
	if p.accept("limit") {
		p.expr()
	}
	if p.accept("for", "update") || p.accept("for", "no", "key", "update") || p.accept("for", "share") {
		s.lock = true
	}
	if p.is("order") || p.is("group") {
		unsupported("order/group by")
	}
	return s
}

func (s *sel) run(up *env) [][]any {
	q := up.q
	var out [][]any
	emit := func(e *env) {
		if s.where != nil && s.where(e) != true {
			return
		}
		row := make([]any, len(s.cols))
		for i, c := range s.cols {
			row[i] = c(e)
		}
		out = append(out, row)
	}
	if s.table == "" {
		emit(up)
		return out
	}
	if rows, ok := q.ctes[s.table]; ok {
		for _, r := range rows {
			emit(&env{q, map[string]map[string]any{s.alias: r}, up})
		}
		return out
	}
	t := q.table(s.table)
	for _, pk := range t.keys() {
		if r := q.visible(t, pk); r != nil {
			n := len(out)
			emit(&env{q, map[string]map[string]any{s.alias: r}, up})
			if s.lock && len(out) > n {
				q.lock(t, pk)
			}
		}
	}
	return out
}

type result struct {
	affected int
	rows     [][]any
	names    []string
}

type statement func(*query) result

type set struct {
	col string
	v   expr
}

func (p *parser) sets() []set {
	var out []set
	for {
		c := p.ident()
		if p.accept(".") {
			c = p.ident()
		}
		p.expect("=")
		out = append(out, set{c, p.expr()})
		if !p.accept(",") {
			return out
		}
	}
}

func (p *parser) returning() ([]expr, []string) {
	if !p.accept("returning") {
		return nil, nil
	}
	var out []expr
	var names []string
	for {
		n := p.peek().text
		out = append(out, p.expr())
		if p.accept("as") {
			n = p.ident()
		}
		names = append(names, n)
		if !p.accept(",") {
			return out, names
		}
	}
}

func (p *parser) statement() statement {
	switch {
	case p.accept("with"):
		type cte struct {
			name string
			st   statement
		}
		var cs []cte
		for {
			n := p.ident()
			p.expect("as")
			p.expect("(")
			st := p.statement()
			p.expect(")")
			cs = append(cs, cte{n, st})
			if !p.accept(",") {
				break
			}
		}
		main := p.statement()
		return func(q *query) result {
			for _, c := range cs {
				r := c.st(q)
				rows := []map[string]any{}
				for _, v := range r.rows {
					m := map[string]any{}
					for i, n := range r.names {
						m[n] = v[i]
					}
					rows = append(rows, m)
				}
				q.ctes[c.name] = rows
			}
			return main(q)
		}
	case p.is("select"):
		s := p.sel()
		return func(q *query) result {
			r := s.run(&env{q: q})
			names := make([]string, len(s.cols))
			for i := range names {
				names[i] = "c" + strconv.Itoa(i)
			}
			return result{rows: r, affected: len(r), names: names}
		}
	case p.accept("insert", "into"):
		return p.insert()
	case p.accept("update"):
		name := p.ident()
		al := p.alias(name)
		p.expect("set")
		ss := p.sets()
		if p.is("from") {
			unsupported("UPDATE FROM")
		}
		var where expr
		if p.accept("where") {
			where = p.expr()
		}
		ret, names := p.returning()
		return func(q *query) result {
			t := q.table(name)
			res := result{names: names}
			for _, pk := range t.keys() {
				r := q.start(t, pk)
				if r == nil {
					continue
				}
				e := &env{q, map[string]map[string]any{al: r}, nil}
				if where != nil && where(e) != true {
					continue
				}
				n := map[string]any{}
				for k, v := range r {
					n[k] = v
				}
				for _, s := range ss {
					n[s.col] = s.v(e)
				}
				q.write(t, pk, n)
				res.affected++
				if ret != nil {
					res.rows = append(res.rows, project(q, al, n, ret))
				}
			}
			return res
		}
	case p.accept("delete", "from"):
		name := p.ident()
		al := p.alias(name)
		var where expr
		if p.accept("where") {
			where = p.expr()
		}
		return func(q *query) result {
			t := q.table(name)
			res := result{}
			for _, pk := range t.keys() {
				r := q.start(t, pk)
				if r == nil {
					continue
				}
				if where != nil && where(&env{q, map[string]map[string]any{al: r}, nil}) != true {
					continue
				}
				q.write(t, pk, nil)
				res.affected++
			}
			return res
		}
	}
	unsupported("statement %q", p.peek().text)
	return nil
}

func project(q *query, al string, r map[string]any, ret []expr) []any {
	e := &env{q, map[string]map[string]any{al: r}, nil}
	out := make([]any, len(ret))
	for i, x := range ret {
		out[i] = x(e)
	}
	return out
}

func (p *parser) insert() statement {
	name := p.ident()
	al := p.alias(name)
	if p.is("(") && false {
		return nil
	}
	cols := p.idents()
	var rows [][]expr
	var from *sel
	if p.accept("values") {
		for {
			p.expect("(")
			var r []expr
			for {
				if p.accept("default") {
					unsupported("DEFAULT")
				}
				r = append(r, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			rows = append(rows, r)
			if !p.accept(",") {
				break
			}
		}
	} else {
		from = p.sel()
	}
	conflict, nothing := false, false
	var target []string
	var ss []set
	var where expr
	if p.accept("on", "conflict") {
		conflict = true
		if p.is("(") {
			target = p.idents()
		} else if p.accept("on", "constraint") {
			p.ident()
		}
		p.expect("do")
		if p.accept("nothing") {
			nothing = true
		} else {
			p.expect("update", "set")
			ss = p.sets()
			if p.accept("where") {
				where = p.expr()
			}
		}
	}
	ret, names := p.returning()
	return func(q *query) result {
		t := q.table(name)
		res := result{names: names}
		e0 := &env{q: q}
		var vals [][]any
		if from != nil {
			vals = from.run(e0)
		}
		for _, r := range rows {
			v := make([]any, len(r))
			for i, x := range r {
				v[i] = x(e0)
			}
			vals = append(vals, v)
		}
		for _, v := range vals {
			if len(v) != len(cols) {
				panic(pgError("INSERT has a different number of expressions than target columns"))
			}
			n := map[string]any{}
			for c, d := range t.defaults {
				n[c] = d
			}
			for i, c := range cols {
				if _, ok := t.types[c]; !ok {
					panic(pgError("column " + c + " does not exist"))
				}
				n[c] = v[i]
			}
			t.check(n)
			pk := n[t.pk].(string)
			if old := q.current(t, pk); old != nil {
				for _, c := range target {
					if c != t.pk {
						panic(pgError("there is no unique constraint matching the ON CONFLICT specification"))
					}
				}
				if !conflict {
					panic(pgError("duplicate key value violates unique constraint \"" + t.name + "_pkey\""))
				}
				if nothing {
					continue
				}
				e := &env{q, map[string]map[string]any{al: old, "excluded": n}, nil}
				// unqualified names mean the existing row
				e = &env{q, map[string]map[string]any{al: old}, &env{q, map[string]map[string]any{"excluded": n}, nil}}
				q.lock(t, pk)
				if where != nil && where(e) != true {
					continue
				}
				m := map[string]any{}
				for k, x := range old {
					m[k] = x
				}
				for _, s := range ss {
					m[s.col] = s.v(e)
				}
				n = m
			}
			q.write(t, pk, n)
			res.affected++
			if ret != nil {
				res.rows = append(res.rows, project(q, al, n, ret))
			}
		}
		return res
	}
}
