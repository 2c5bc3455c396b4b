package minisql

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"io"
	"sort"
	"sync"
	"time"
)

type (
	// DB is the database
	DB struct {
		lock   sync.Mutex
		tables map[string]*table
		// Fault is called for every statement and every row returned; the error breaks the connection there
		Fault func(stmt string, rowN int) error
		// Stmts counts statements executed, Rows - rows returned
		Stmts, Rows int
	}

	column struct {
		name string
		tp   string
		max  int
		def  func() any
		nn   bool
	}

	table struct {
		name string
		cols []column
		pk   []string
		fk   map[string]string // column -> table(id), on delete cascade
		rows []row
	}

	selectStmt struct {
		list  []*node
		names []string
		star  bool
		from  string
		where *node
		order []orderBy
		limit *node
		off   *node
	}

	orderBy struct {
		n    *node
		desc bool
	}

	stmt struct {
		kind      string
		sel       *selectStmt
		table     string
		cols      []string
		vals      [][]*node
		set       []assign
		where     *node
		conflict  []string
		onConf    string // "", nothing, update
		returning *selectStmt
	}

	assign struct {
		col string
		n   *node
	}
)

// NewDB returns the database with the tables of the solaris schema
func NewDB() *DB {
	str := func(name string, nn bool) column {
		return column{name: name, tp: "varchar", max: 32, nn: nn, def: func() any { return "" }}
	}
	ts := func(name string) column {
		return column{name: name, tp: "timestamptz", nn: true, def: func() any { return time.Now().Round(time.Microsecond) }}
	}
	num := column{name: "records", tp: "integer", nn: true, def: func() any { return int64(0) }}
	id := column{name: "id", tp: "varchar", max: 32, nn: true}
	return &DB{tables: map[string]*table{
		"log": {name: "log", pk: []string{"id"}, cols: []column{id,
			{name: "tags", tp: "jsonb", nn: true, def: func() any { return jsonb{} }}, num,
			{name: "deleted", tp: "boolean", nn: true, def: func() any { return false }}, ts("created_at"), ts("updated_at")}},
		"chunk": {name: "chunk", pk: []string{"log_id", "id"}, fk: map[string]string{"log_id": "log"},
			cols: []column{id, {name: "log_id", tp: "varchar", max: 32, nn: true}, str("min", true), str("max", true), num}},
	}}
}

func parseStmt(q string) *stmt {
	p := &parser{ts: lex(q)}
	s := &stmt{}
	switch {
	case p.peek().s == "select":
		s.kind, s.sel = "select", p.selectStmt()
	case p.kw("insert", "into"):
		s.kind, s.table = "insert", p.ident()
		p.need("(")
		for {
			s.cols = append(s.cols, p.ident())
			if !p.op(",") {
				break
			}
		}
		p.need(")")
		p.needKw("values")
		for {
			p.need("(")
			var r []*node
			for {
				r = append(r, p.expr())
				if !p.op(",") {
					break
				}
			}
			p.need(")")
			s.vals = append(s.vals, r)
			if !p.op(",") {
				break
			}
		}
		if p.kw("on", "conflict") {
			if p.op("(") {
				for {
					s.conflict = append(s.conflict, p.ident())
					if !p.op(",") {
						break
					}
				}
				p.need(")")
			}
			p.needKw("do")
			if p.kw("nothing") {
				s.onConf = "nothing"
			} else {
				p.needKw("update", "set")
				s.onConf, s.set = "update", p.assigns()
			}
		}
		s.returning = p.returning()
	case p.kw("update"):
		s.kind, s.table = "update", p.ident()
		p.needKw("set")
		s.set = p.assigns()
		if p.kw("where") {
			s.where = p.expr()
		}
		s.returning = p.returning()
	case p.kw("delete", "from"):
		s.kind, s.table = "delete", p.ident()
		if p.kw("where") {
			s.where = p.expr()
		}
		s.returning = p.returning()
	default:
		fail("42601", "syntax error at or near %q", p.peek().s)
	}
	p.op(";")
	if p.peek().k != "eof" {
		fail("42601", "syntax error at or near %q", p.peek().s)
	}
	return s
}

func (p *parser) assigns() []assign {
	var as []assign
	for {
		if p.op("(") {
			var cols []string
			for {
				cols = append(cols, p.ident())
				if !p.op(",") {
					break
				}
			}
			p.need(")")
			p.need("=")
			p.kw("row")
			n := p.prim()
			if n.op != "row" || len(n.subs) != len(cols) {
				fail("42601", "number of columns does not match number of values")
			}
			for i, c := range cols {
				as = append(as, assign{c, n.subs[i]})
			}
		} else {
			c := p.ident()
			p.need("=")
			as = append(as, assign{c, p.expr()})
		}
		if !p.op(",") {
			return as
		}
	}
}

func (p *parser) returning() *selectStmt {
	if !p.kw("returning") {
		return nil
	}
	s := &selectStmt{}
	p.list(s)
	return s
}

func (p *parser) list(s *selectStmt) {
	for {
		n := p.expr()
		name := n.s
		if p.kw("as") {
			name = p.ident()
		}
		if n.op == "star" {
			s.star = true
		} else {
			s.list = append(s.list, n)
			s.names = append(s.names, name)
		}
		if !p.op(",") {
			return
		}
	}
}

func (p *parser) selectStmt() *selectStmt {
	p.needKw("select")
	s := &selectStmt{}
	p.list(s)
	if p.kw("from") {
		s.from = p.ident()
	}
	if p.kw("where") {
		s.where = p.expr()
	}
	if p.kw("order", "by") {
		for {
			o := orderBy{n: p.expr()}
			if p.kw("desc") {
				o.desc = true
			} else {
				p.kw("asc")
			}
			s.order = append(s.order, o)
			if !p.op(",") {
				break
			}
		}
	}
	for {
		if p.kw("limit") {
			if !p.kw("all") {
				s.limit = p.expr()
			}
			continue
		}
		if p.kw("offset") {
			s.off = p.expr()
			continue
		}
		break
	}
	return s
}

func (db *DB) table(name string) *table {
	t := db.tables[name]
	if t == nil {
		fail("42P01", "relation %q does not exist", name)
	}
	return t
}

func (s *selectStmt) columns(t *table) []string {
	var r []string
	if s.star && t != nil {
		for _, c := range t.cols {
			r = append(r, c.name)
		}
	}
	return append(r, s.names...)
}

func isCount(n *node) bool { return n.op == "func" && n.s == "count" }

func (db *DB) runSelect(s *selectStmt, args []any) [][]any {
	var t *table
	rows := []row{{}}
	if s.from != "" {
		t = db.table(s.from)
		rows = t.rows
	}
	var sel []row
	for _, r := range rows {
		e := &env{row: r, args: args, db: db}
		if s.where == nil || e.boolean(s.where) == true {
			sel = append(sel, r)
		}
	}
	if s.where != nil && len(rows) == 0 { // the names and types are checked anyway
		t.check(db, s.where, args)
	}
	if len(s.list) == 1 && !s.star && isCount(s.list[0]) {
		return [][]any{{int64(len(sel))}}
	}
	sort.SliceStable(sel, func(i, j int) bool {
		for _, o := range s.order {
			a, b := (&env{row: sel[i], args: args, db: db}).eval(o.n), (&env{row: sel[j], args: args, db: db}).eval(o.n)
			if compare("=", a, b) == true {
				continue
			}
			return (compare("<", a, b) == true) != o.desc
		}
		return false
	})
	e := &env{row: row{}, args: args, db: db}
	if s.off != nil {
		n := toInt(e.eval(s.off))
		if n < 0 {
			fail("2201X", "OFFSET must not be negative")
		}
		sel = sel[min(n, int64(len(sel))):]
	}
	if s.limit != nil {
		if v := e.eval(s.limit); v != nil {
			n := toInt(v)
			if n < 0 {
				fail("2201W", "LIMIT must not be negative")
			}
			sel = sel[:min(n, int64(len(sel)))]
		}
	}
	res := make([][]any, 0, len(sel))
	for _, r := range sel {
		res = append(res, s.project(db, t, r, args))
	}
	return res
}

// check evaluates the condition over a sample row, so the errors don't depend on the data
func (t *table) check(db *DB, n *node, args []any) {
	if t == nil {
		return
	}
	r := row{}
	for _, c := range t.cols {
		switch c.tp {
		case "varchar":
			r[c.name] = ""
		case "integer":
			r[c.name] = int64(0)
		case "boolean":
			r[c.name] = false
		case "jsonb":
			r[c.name] = jsonb{}
		default:
			r[c.name] = time.Now()
		}
	}
	(&env{row: r, args: args, db: db}).boolean(n)
}

func (s *selectStmt) project(db *DB, t *table, r row, args []any) []any {
	var vs []any
	if s.star {
		for _, c := range t.cols {
			vs = append(vs, r[c.name])
		}
	}
	e := &env{row: r, args: args, db: db}
	for _, n := range s.list {
		vs = append(vs, plain(e.eval(n)))
	}
	return vs
}

func (t *table) col(name string) column {
	for _, c := range t.cols {
		if c.name == name {
			return c
		}
	}
	fail("42703", "column %q of relation %q does not exist", name, t.name)
	return column{}
}

func (c column) store(v any) any {
	if v == nil {
		if c.nn {
			fail("23502", "null value in column %q violates not-null constraint", c.name)
		}
		return nil
	}
	tp := c.tp
	if _, ok := v.(unknown); !ok && typeOf(v) != "" {
		okc := map[string]string{"varchar": "text", "integer": "bigint", "boolean": "boolean", "jsonb": "jsonb", "timestamptz": "timestamptz"}
		if okc[tp] != typeOf(v) {
			fail("42804", "column %q is of type %s but expression is of type %s", c.name, tp, typeOf(v))
		}
	}
	v = castTo(v, tp)
	if s, ok := v.(string); ok && c.max > 0 && len([]rune(s)) > c.max {
		fail("22001", "value too long for type character varying(%d)", c.max)
	}
	return v
}

func (t *table) find(r row, cols []string) int {
	for i, o := range t.rows {
		same := true
		for _, c := range cols {
			if o[c] != r[c] {
				same = false
				break
			}
		}
		if same {
			return i
		}
	}
	return -1
}

func (db *DB) checkFK(t *table, r row) {
	for c, ft := range t.fk {
		if r[c] != nil && db.tables[ft].find(row{"id": r[c]}, []string{"id"}) < 0 {
			fail("23503", "insert or update on table %q violates foreign key constraint", t.name)
		}
	}
}

// exec runs the statement. The caller holds the lock
func (db *DB) exec(s *stmt, args []any) (cols []string, out [][]any, affected int64) {
	if s.kind == "select" {
		var t *table
		if s.sel.from != "" {
			t = db.table(s.sel.from)
		}
		return s.sel.columns(t), db.runSelect(s.sel, args), 0
	}
	t := db.table(s.table)
	snapT := db.snapshot()
	done := false
	defer func() {
		if !done {
			db.tables = snapT
		}
	}()
	ret := func(r row) {
		affected++
		if s.returning != nil {
			out = append(out, s.returning.project(db, t, r, args))
		}
	}
	if s.returning != nil {
		cols = s.returning.columns(t)
	}
	if s.where != nil {
		t.check(db, s.where, args)
	}
	switch s.kind {
	case "insert":
		touched := map[int]bool{}
		for _, vs := range s.vals {
			if len(vs) != len(s.cols) {
				fail("42601", "INSERT has a wrong number of expressions")
			}
			r := row{}
			for _, c := range t.cols {
				r[c.name] = nil
				if c.def != nil {
					r[c.name] = c.def()
				}
			}
			e := &env{row: row{}, args: args, db: db}
			for i, c := range s.cols {
				r[c] = t.col(c).store(e.eval(vs[i]))
			}
			for _, c := range t.cols {
				if r[c.name] == nil && c.nn {
					fail("23502", "null value in column %q violates not-null constraint", c.name)
				}
			}
			if i := t.find(r, t.pk); i >= 0 {
				switch s.onConf {
				case "":
					fail("23505", "duplicate key value violates unique constraint %q", t.name+"_pkey")
				case "nothing":
					continue
				}
				if touched[i] {
					fail("21000", "ON CONFLICT DO UPDATE command cannot affect row a second time")
				}
				touched[i] = true
				ue := &env{row: t.rows[i], excluded: r, args: args, db: db}
				n := row{}
				for k, v := range t.rows[i] {
					n[k] = v
				}
				for _, a := range s.set {
					n[a.col] = t.col(a.col).store(ue.eval(a.n))
				}
				t.rows[i] = n
				ret(n)
				continue
			}
			db.checkFK(t, r)
			touched[len(t.rows)] = true
			t.rows = append(t.rows, r)
			ret(r)
		}
	case "update":
		for i, r := range t.rows {
			e := &env{row: r, args: args, db: db}
			if s.where != nil && e.boolean(s.where) != true {
				continue
			}
			n := row{}
			for k, v := range r {
				n[k] = v
			}
			for _, a := range s.set {
				n[a.col] = t.col(a.col).store(e.eval(a.n))
			}
			db.checkFK(t, n)
			t.rows[i] = n
			ret(n)
		}
	case "delete":
		var left []row
		for _, r := range t.rows {
			e := &env{row: r, args: args, db: db}
			if s.where != nil && e.boolean(s.where) != true {
				left = append(left, r)
				continue
			}
			ret(r)
			for _, o := range db.tables {
				for c, ft := range o.fk {
					if ft != t.name {
						continue
					}
					var ol []row
					for _, or := range o.rows {
						if or[c] != r["id"] {
							ol = append(ol, or)
						}
					}
					o.rows = ol
				}
			}
		}
		t.rows = left
	}
	done = true
	return
}

func (db *DB) snapshot() map[string]*table {
	m := map[string]*table{}
	for k, t := range db.tables {
		c := *t
		c.rows = append([]row(nil), t.rows...)
		m[k] = &c
	}
	return m
}

// ------------------------------------------------------------------------- driver

type (
	connector struct{ db *DB }
	conn      struct {
		db   *DB
		tx   map[string]*table
		bad  bool
		held bool
	}
	dstmt struct {
		c *conn
		q string
	}
	drows struct {
		db   *DB
		q    string
		c    *conn
		cols []string
		rows [][]any
		n    int
	}
	dres int64
)

// Open returns the sql.DB over the database
func (db *DB) Open() *sql.DB { return sql.OpenDB(connector{db}) }

// Counts returns number of statements and rows
func (db *DB) Counts() (int, int) {
	db.lock.Lock()
	defer db.lock.Unlock()
	return db.Stmts, db.Rows
}

func (c connector) Connect(context.Context) (driver.Conn, error) { return &conn{db: c.db}, nil }
func (c connector) Driver() driver.Driver                        { return c }
func (c connector) Open(string) (driver.Conn, error)             { return &conn{db: c.db}, nil }

func (c *conn) Prepare(q string) (driver.Stmt, error) { return &dstmt{c, q}, nil }
func (c *conn) Close() error {
	c.endTx(true)
	return nil
}
func (c *conn) IsValid() bool { return !c.bad }

// Begin starts a transaction: it holds the database, so it is serializable
func (c *conn) Begin() (driver.Tx, error) {
	c.db.lock.Lock()
	c.held = true
	c.tx = c.db.snapshot()
	return c, nil
}
func (c *conn) Commit() error   { c.endTx(false); return nil }
func (c *conn) Rollback() error { c.endTx(true); return nil }
func (c *conn) endTx(undo bool) {
	if !c.held {
		return
	}
	if undo {
		c.db.tables = c.tx
	}
	c.held, c.tx = false, nil
	c.db.lock.Unlock()
}

func (c *conn) run(ctx context.Context, q string, args []driver.NamedValue) (r *drows, n int64, err error) {
	if err := ctx.Err(); err != nil {
		return nil, 0, err
	}
	if c.db.Fault != nil {
		if err := c.db.Fault(q, -1); err != nil {
			c.bad = true
			return nil, 0, err
		}
	}
	if !c.held {
		c.db.lock.Lock()
		defer c.db.lock.Unlock()
	}
	defer catch(&err)
	c.db.Stmts++
	vs := make([]any, len(args))
	for i, a := range args {
		vs[i] = a.Value
	}
	st := parseStmt(q)
	cols, rows, n := c.db.exec(st, vs)
	return &drows{db: c.db, q: q, c: c, cols: cols, rows: rows}, n, nil
}

func (c *conn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	r, _, err := c.run(ctx, q, args)
	if err != nil {
		return nil, err
	}
	return r, nil
}

func (c *conn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	_, n, err := c.run(ctx, q, args)
	return dres(n), err
}

func (s *dstmt) Close() error  { return nil }
func (s *dstmt) NumInput() int { return -1 }
func named(args []driver.Value) []driver.NamedValue {
	r := make([]driver.NamedValue, len(args))
	for i, a := range args {
		r[i] = driver.NamedValue{Ordinal: i + 1, Value: a}
	}
	return r
}
func (s *dstmt) Exec(args []driver.Value) (driver.Result, error) {
	return s.c.ExecContext(context.Background(), s.q, named(args))
}
func (s *dstmt) Query(args []driver.Value) (driver.Rows, error) {
	return s.c.QueryContext(context.Background(), s.q, named(args))
}

func (r dres) LastInsertId() (int64, error) { return 0, nil }
func (r dres) RowsAffected() (int64, error) { return int64(r), nil }

func (r *drows) Columns() []string { return r.cols }
func (r *drows) Close() error      { return nil }
func (r *drows) Next(dest []driver.Value) error {
	if r.db.Fault != nil {
		if err := r.db.Fault(r.q, r.n); err != nil {
			r.c.bad = true
			return err
		}
	}
	if r.n >= len(r.rows) {
		return io.EOF
	}
	for i, v := range r.rows[r.n] {
		switch x := v.(type) {
		case jsonb:
			b, _ := json.Marshal(x)
			dest[i] = b
		case string:
			dest[i] = []byte(x)
		default:
			dest[i] = x
		}
	}
	r.n++
	if !r.c.held {
		r.db.lock.Lock()
		defer r.db.lock.Unlock()
	}
	r.db.Rows++
	return nil
}
