// Package fpg is a PostgreSQL model behind database/sql: tables, transactions
// with row locks at READ COMMITTED, and an interpreter of the statements.
package fpg

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"math/big"
	"sort"
	"strings"
	"sync"

	"vsa/internal/gomc/rt"
)

type table struct {
	name, pk string
	types    map[string]string
	notNull  map[string]bool
	defaults map[string]any
	rows     map[string]map[string]any // committed
	locks    map[string]*tx
	pending  map[string]bool // keys some transaction may insert
}

func (t *table) keys() []string {
	m := map[string]bool{}
	for k := range t.rows {
		m[k] = true
	}
	for k := range t.pending {
		m[k] = true
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (t *table) check(r map[string]any) {
	for c, v := range r {
		switch ty := t.types[c]; {
		case ty == "":
			panic(pgError("column " + c + " does not exist"))
		case v == nil:
			if t.notNull[c] || c == t.pk {
				panic(pgError("null value in column \"" + c + "\" violates not-null constraint"))
			}
		case ty == "text":
			if _, ok := v.(string); !ok {
				panic(pgError(fmt.Sprintf("column %q is of type text but expression is of type %T", c, v)))
			}
		case ty == "bigint":
			if _, ok := v.(*big.Int); !ok {
				panic(pgError(fmt.Sprintf("column %q is of type bigint but expression is of type %T", c, v)))
			}
		}
	}
	for c := range t.notNull {
		if r[c] == nil {
			panic(pgError("null value in column \"" + c + "\" violates not-null constraint"))
		}
	}
	if _, ok := r[t.pk].(string); !ok {
		panic(pgError("primary key missing"))
	}
}

type tx struct {
	id       int
	auto     bool
	aborted  bool
	done     bool
	readOnly bool
	strict   bool // serialization failures instead of waiting
	mine     map[string]map[string]map[string]any
	waits    *tx
}

// DB is one database.
type DB struct {
	mu     sync.Mutex // real: only the rollback of an abandoned transaction is uncontrolled
	tables map[string]*table
	open   map[*tx]bool
	n      int
	obj    rt.Object
	Faults bool
	Log    []string
}

var stmts = map[string]statement{} // parsed statements

// New creates the reference schema of the adapter.
func New() *DB {
	d := &DB{tables: map[string]*table{}, open: map[*tx]bool{}}
	d.tables["counters"] = &table{name: "counters", pk: "key",
		types:   map[string]string{"key": "text", "scalar": "bigint", "last_token": "bigint"},
		notNull: map[string]bool{"scalar": true}, defaults: map[string]any{"last_token": nil}}
	d.tables["applied_commits"] = &table{name: "applied_commits", pk: "commit_id",
		types:   map[string]string{"commit_id": "text", "key": "text", "vc": "bigint", "ts": "ts"},
		notNull: map[string]bool{"key": true, "vc": true}, defaults: map[string]any{"ts": "now"}}
	for _, t := range d.tables {
		t.rows, t.locks, t.pending = map[string]map[string]any{}, map[string]*tx{}, map[string]bool{}
	}
	return d
}

// SQL returns the database/sql handle.
func (d *DB) SQL() *sql.DB { return sql.OpenDB(connector{d}) }

// Counter is one committed row.
type Counter struct {
	Scalar *big.Int
	Token  *int64
}

// Counters returns the committed counters.
func (d *DB) Counters() map[string]Counter {
	d.mu.Lock()
	defer d.mu.Unlock()
	out := map[string]Counter{}
	for k, r := range d.tables["counters"].rows {
		c := Counter{Scalar: r["scalar"].(*big.Int)}
		if v, ok := r["last_token"].(*big.Int); ok {
			n := v.Int64()
			c.Token = &n
		}
		out[k] = c
	}
	return out
}

// Put stores a committed counter.
func (d *DB) Put(key string, scalar int64) {
	d.tables["counters"].rows[key] = map[string]any{"key": key, "scalar": big.NewInt(scalar), "last_token": nil}
}

// Open counts the transactions neither committed nor rolled back.
func (d *DB) Open() int {
	d.mu.Lock()
	defer d.mu.Unlock()
	return len(d.open)
}

// query is one statement being executed.
type query struct {
	d      *DB
	x      *tx
	args   []any
	ctes   map[string][]map[string]any
	writes map[string]map[string]map[string]any // table -> key -> row, nil deleted
	locks  []lockReq
}

type lockReq struct {
	t  *table
	pk string
}

// blocked is thrown when a row is held by another transaction.
type blocked struct{ by *tx }

func (q *query) table(n string) *table {
	t := q.d.tables[n]
	if t == nil {
		panic(pgError("relation \"" + n + "\" does not exist"))
	}
	return t
}

// start is the row as of the start of the statement.
func (q *query) start(t *table, pk string) map[string]any {
	if m, ok := q.x.mine[t.name]; ok {
		if r, ok := m[pk]; ok {
			return r
		}
	}
	return t.rows[pk]
}

func (q *query) visible(t *table, pk string) map[string]any { return q.start(t, pk) }

// current also sees what this statement wrote (unique checks), and waits for
// uncommitted rows of others.
func (q *query) current(t *table, pk string) map[string]any {
	if m, ok := q.writes[t.name]; ok {
		if r, ok := m[pk]; ok {
			return r
		}
	}
	if o := t.locks[pk]; o != nil && o != q.x && t.pending[pk] && t.rows[pk] == nil {
		panic(blocked{o})
	}
	return q.start(t, pk)
}

func (q *query) lock(t *table, pk string) {
	if o := t.locks[pk]; o != nil && o != q.x {
		panic(blocked{o})
	}
	q.locks = append(q.locks, lockReq{t, pk})
}

func (q *query) write(t *table, pk string, r map[string]any) {
	q.lock(t, pk)
	if r != nil {
		t.check(r)
	}
	if q.writes[t.name] == nil {
		q.writes[t.name] = map[string]map[string]any{}
	}
	q.writes[t.name][pk] = r
}

func (d *DB) parse(src string) (st statement, err error) {
	if st := stmts[src]; st != nil {
		return st, nil
	}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(pgError)
			if !ok {
				panic(r)
			}
			err = e
		}
	}()
	p := &parser{t: lex(src)}
	st = p.statement()
	p.accept(";")
	if p.peek().kind != 'e' {
		return nil, pgError(fmt.Sprintf("syntax error at or near %q", p.peek().text))
	}
	stmts[src] = st
	return st, nil
}

var errAborted = pgError("current transaction is aborted, commands ignored until end of transaction block")

// point is a scheduling point of the controlled execution.
func (d *DB) point(enabled func() bool) {
	if rt.Active() {
		rt.Point(rt.KWrite, &d.obj, true, enabled)
	}
}

func (d *DB) exec(ctx context.Context, x *tx, src string, named []driver.NamedValue) (res result, err error) {
	if err := ctx.Err(); err != nil {
		return res, err
	}
	d.point(nil)
	if x.done {
		return res, errors.New("pq: transaction is over")
	}
	if x.aborted {
		return res, errAborted
	}
	defer func() {
		if err != nil {
			x.aborted = true
		}
		d.Log = append(d.Log, fmt.Sprintf("tx%d %s %v -> %d rows, %v", x.id, strings.Join(strings.Fields(src), " "), vals(named), res.affected, err))
	}()
	if d.Faults && rt.Choose(2, true, "statement") == 1 {
		return res, errors.New("pq: the server refuses")
	}
	st, err := d.parse(src)
	if err != nil {
		return res, err
	}
	q := &query{d: d, x: x, ctes: map[string][]map[string]any{}}
	for _, a := range named {
		switch v := a.Value.(type) {
		case int64:
			q.args = append(q.args, big.NewInt(v))
		case string, bool, nil:
			q.args = append(q.args, v)
		case []byte:
			q.args = append(q.args, string(v))
		default:
			return res, pgError(fmt.Sprintf("parameter of type %T", a.Value))
		}
	}
	for {
		by, e := q.try(st, &res)
		if e != nil {
			return res, e
		}
		if by == nil {
			return res, nil
		}
		if !rt.Active() {
			return res, pgError("canceling statement due to lock timeout")
		}
		// wait for the holder, unless that closes a cycle
		for o := by; o != nil; o = o.waits {
			if o == x {
				return res, pgError("deadlock detected")
			}
		}
		x.waits = by
		d.point(func() bool { return by.done })
		x.waits = nil
		if x.strict {
			return res, pgError("could not serialize access due to concurrent update")
		}
	}
}

func vals(n []driver.NamedValue) []any {
	var out []any
	for _, v := range n {
		out = append(out, v.Value)
	}
	return out
}

// try executes the statement once; it returns the transaction to wait for.
func (q *query) try(st statement, res *result) (by *tx, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case pgError:
				err = v
			case blocked:
				by = v.by
			default:
				panic(r)
			}
		}
	}()
	q.d.mu.Lock()
	defer q.d.mu.Unlock()
	q.writes, q.locks = map[string]map[string]map[string]any{}, nil
	*res = st(q)
	if q.x.readOnly && len(q.writes) > 0 {
		return nil, pgError("cannot execute in a read-only transaction")
	}
	for _, l := range q.locks {
		l.t.locks[l.pk] = q.x
	}
	for tn, m := range q.writes {
		if q.x.mine[tn] == nil {
			q.x.mine[tn] = map[string]map[string]any{}
		}
		for pk, r := range m {
			q.x.mine[tn][pk] = r
			q.d.tables[tn].pending[pk] = true
		}
	}
	return nil, nil
}

func (d *DB) begin(o driver.TxOptions) *tx {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.n++
	x := &tx{id: d.n, mine: map[string]map[string]map[string]any{}, readOnly: o.ReadOnly, strict: sql.IsolationLevel(o.Isolation) > sql.LevelReadCommitted}
	d.open[x] = true
	return x
}

func (d *DB) end(x *tx, commit bool) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if x.done {
		return
	}
	x.done = true
	delete(d.open, x)
	for tn, m := range x.mine {
		t := d.tables[tn]
		for pk, r := range m {
			if commit {
				if r == nil {
					delete(t.rows, pk)
				} else {
					t.rows[pk] = r
				}
			}
			delete(t.pending, pk)
		}
	}
	for _, t := range d.tables {
		for pk, o := range t.locks {
			if o == x {
				delete(t.locks, pk)
			}
		}
	}
}

// ---------------------------------------------------------------- driver

type connector struct{ d *DB }

func (c connector) Connect(context.Context) (driver.Conn, error) { return &conn{d: c.d}, nil }
func (c connector) Driver() driver.Driver                        { return c }
func (c connector) Open(string) (driver.Conn, error)             { return &conn{d: c.d}, nil }

type conn struct {
	d *DB
	x *tx
}

func (c *conn) Prepare(q string) (driver.Stmt, error) { return &stmt{c, q}, nil }
func (c *conn) Close() error {
	if c.x != nil {
		c.d.end(c.x, false)
	}
	return nil
}
func (c *conn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}
func (c *conn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	c.d.point(nil)
	if c.d.Faults && rt.Choose(2, true, "begin") == 1 {
		return nil, errors.New("pq: too many clients")
	}
	c.x = c.d.begin(o)
	return &dtx{c}, nil
}

func (c *conn) do(ctx context.Context, q string, a []driver.NamedValue) (result, error) {
	if c.x != nil {
		return c.d.exec(ctx, c.x, q, a)
	}
	x := c.d.begin(driver.TxOptions{Isolation: driver.IsolationLevel(sql.LevelReadCommitted)})
	r, err := c.d.exec(ctx, x, q, a)
	c.d.end(x, err == nil)
	return r, err
}

func (c *conn) ExecContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Result, error) {
	r, err := c.do(ctx, q, a)
	if err != nil {
		return nil, err
	}
	out := rowsResult{n: int64(r.affected)}
	if c.d.Faults && rt.Choose(2, true, "row count") == 1 {
		out.err = errors.New("pq: row count unknown")
	}
	return out, nil
}

func (c *conn) QueryContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Rows, error) {
	r, err := c.do(ctx, q, a)
	if err != nil {
		return nil, err
	}
	return &rows{r: r}, nil
}

type rowsResult struct {
	n   int64
	err error
}

func (r rowsResult) LastInsertId() (int64, error) { return 0, errors.New("pq: no LastInsertId") }
func (r rowsResult) RowsAffected() (int64, error) { return r.n, r.err }

type rows struct {
	r result
	i int
}

func (r *rows) Columns() []string { return r.r.names }
func (r *rows) Close() error      { return nil }
func (r *rows) Next(dst []driver.Value) error {
	if r.i >= len(r.r.rows) {
		return io.EOF
	}
	for i, v := range r.r.rows[r.i] {
		switch x := v.(type) {
		case *big.Int:
			dst[i] = x.Int64()
		default:
			dst[i] = x
		}
	}
	r.i++
	return nil
}

type stmt struct {
	c *conn
	q string
}

func (s *stmt) Close() error  { return nil }
func (s *stmt) NumInput() int { return -1 }
func (s *stmt) Exec(a []driver.Value) (driver.Result, error) {
	return s.c.ExecContext(context.Background(), s.q, name(a))
}
func (s *stmt) Query(a []driver.Value) (driver.Rows, error) {
	return s.c.QueryContext(context.Background(), s.q, name(a))
}
func (s *stmt) ExecContext(ctx context.Context, a []driver.NamedValue) (driver.Result, error) {
	return s.c.ExecContext(ctx, s.q, a)
}
func (s *stmt) QueryContext(ctx context.Context, a []driver.NamedValue) (driver.Rows, error) {
	return s.c.QueryContext(ctx, s.q, a)
}

func name(a []driver.Value) []driver.NamedValue {
	out := make([]driver.NamedValue, len(a))
	for i, v := range a {
		out[i] = driver.NamedValue{Ordinal: i + 1, Value: v}
	}
	return out
}

type dtx struct{ c *conn }

func (t *dtx) Commit() error {
	d, x := t.c.d, t.c.x
	d.point(nil)
	t.c.x = nil
	if x.aborted {
		d.end(x, false)
		d.Log = append(d.Log, fmt.Sprintf("tx%d COMMIT of a failed transaction", x.id))
		return errors.New("pq: Could not complete operation in a failed transaction")
	}
	f := 0
	if d.Faults {
		f = rt.Choose(3, true, "commit")
	}
	d.end(x, f != 1)
	d.Log = append(d.Log, fmt.Sprintf("tx%d COMMIT %s", x.id, []string{"", "refused", "answer lost"}[f]))
	switch f {
	case 1:
		return errors.New("pq: commit refused")
	case 2:
		return errors.New("pq: connection lost")
	}
	return nil
}

// Rollback may run outside the controlled threads (database/sql rolls back an
// abandoned transaction by itself), so it is no scheduling point.
func (t *dtx) Rollback() error {
	if t.c.x != nil {
		t.c.d.end(t.c.x, false)
		t.c.x = nil
	}
	return nil
}
