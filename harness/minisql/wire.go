package minisql

import (
	"bufio"
	"context"
	"database/sql/driver"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/lib/pq"
)

// Wire is the server of the database: it speaks the PostgreSQL wire protocol (version 3), so the database can be used by
// another process through the usual driver.
type Wire struct {
	// Startup is told the parameters of every connection
	Startup func(params map[string]string)

	db    *DB
	l     net.Listener
	lock  sync.Mutex
	conns map[net.Conn]bool
	wg    sync.WaitGroup
	dead  bool
}

var migrations = func() *table {
	return &table{name: "gorp_migrations", pk: []string{"id"}, cols: []column{{name: "id", tp: "varchar", nn: true}, {name: "applied_at", tp: "timestamptz"}}}
}

// Serve starts serving the connections
func (db *DB) Serve(l net.Listener) *Wire {
	db.lock.Lock()
	if db.tables["gorp_migrations"] == nil {
		db.tables["gorp_migrations"] = migrations()
	}
	db.lock.Unlock()
	w := &Wire{db: db, l: l, conns: map[net.Conn]bool{}}
	w.wg.Add(1)
	go func() {
		defer w.wg.Done()
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			w.lock.Lock()
			if w.dead {
				c.Close()
			} else {
				w.conns[c] = true
				w.wg.Add(1)
				go w.serve(c)
			}
			w.lock.Unlock()
		}
	}()
	return w
}

// Drop breaks all the connections
func (w *Wire) Drop() int {
	w.lock.Lock()
	defer w.lock.Unlock()
	n := len(w.conns)
	for c := range w.conns {
		c.Close()
	}
	return n
}

// Conns returns the number of connections
func (w *Wire) Conns() int {
	w.lock.Lock()
	defer w.lock.Unlock()
	return len(w.conns)
}

// Close stops the server
func (w *Wire) Close() {
	w.lock.Lock()
	w.dead = true
	w.lock.Unlock()
	w.l.Close()
	w.Drop()
	w.wg.Wait()
}

type wconn struct {
	*conn
	w       *Wire
	r       *bufio.Reader
	out     []byte
	inTx    bool
	failed  bool
	stmts   map[string]string
	portals map[string]portal
}

type portal struct {
	q    string
	args []driver.NamedValue
	bin  []bool // the format of the result columns
}

func (p portal) binary(i int) bool {
	if len(p.bin) == 1 {
		return p.bin[0]
	}
	return i < len(p.bin) && p.bin[i]
}

func (c *wconn) msg(t byte, body []byte) {
	c.out = append(c.out, t)
	c.out = binary.BigEndian.AppendUint32(c.out, uint32(len(body)+4))
	c.out = append(c.out, body...)
}

func (c *wconn) ready() {
	st := byte('I')
	if c.failed {
		st = 'E'
	} else if c.inTx {
		st = 'T'
	}
	c.msg('Z', []byte{st})
}

func (c *wconn) error(err error) {
	code, text := "XX000", err.Error()
	var pe *pq.Error
	if errors.As(err, &pe) {
		code, text = string(pe.Code), pe.Message
	}
	if c.inTx {
		c.failed = true
	}
	c.msg('E', []byte("SERROR\x00VERROR\x00C"+code+"\x00M"+text+"\x00\x00"))
}

var oids = map[string]uint32{"varchar": 1043, "text": 25, "integer": 23, "bigint": 20, "boolean": 16, "jsonb": 3802, "timestamptz": 1184}

// describe returns the names and types of the columns the query returns
func (c *wconn) describe(q string) (names []string, types []uint32, params int, err error) {
	if sp := special(q); sp != "" {
		return nil, nil, 0, nil
	}
	defer catch(&err)
	st := parseStmt(q)
	for i := 1; strings.Contains(q, fmt.Sprintf("$%d", i)); i++ {
		params = i
	}
	sel, tn := st.returning, st.table
	if st.kind == "select" {
		sel, tn = st.sel, st.sel.from
	}
	if sel == nil {
		return nil, nil, params, nil
	}
	if !c.held {
		c.db.lock.Lock()
		defer c.db.lock.Unlock()
	}
	var t *table
	if tn != "" {
		t = c.db.table(tn)
	}
	names = sel.columns(t)
	for _, n := range names {
		o := uint32(25)
		if n == "count" {
			o = 20
		}
		if t != nil {
			for _, cl := range t.cols {
				if cl.name == n {
					o = oids[cl.tp]
				}
			}
		}
		types = append(types, o)
	}
	return names, types, params, nil
}

func (c *wconn) rowDesc(names []string, types []uint32) {
	if len(names) == 0 {
		c.msg('n', nil)
		return
	}
	b := binary.BigEndian.AppendUint16(nil, uint16(len(names)))
	for i, n := range names {
		b = append(append(b, n...), 0)
		b = append(b, 0, 0, 0, 0, 0, 0)
		b = binary.BigEndian.AppendUint32(b, types[i])
		b = append(b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0, 0)
	}
	c.msg('T', b)
}

// special are the statements which are not run by the engine
func special(q string) string {
	f := strings.Fields(strings.ToLower(strings.Trim(q, " \n\t;")))
	if len(f) == 0 {
		return "EMPTY"
	}
	switch f[0] {
	case "begin", "start":
		return "BEGIN"
	case "commit", "end":
		return "COMMIT"
	case "rollback", "abort":
		return "ROLLBACK"
	case "create", "drop":
		return "CREATE TABLE"
	}
	return ""
}

func (c *wconn) run(p portal, desc bool) error {
	q, args := p.q, p.args
	sp := special(q)
	if c.failed && sp != "ROLLBACK" && sp != "COMMIT" {
		return pgErr("25P02", "current transaction is aborted, commands ignored until end of transaction block")
	}
	tag := sp
	switch sp {
	case "EMPTY":
		c.msg('I', nil)
		return nil
	case "BEGIN":
		if !c.inTx {
			_, _ = c.Begin()
			c.inTx = true
		}
	case "COMMIT", "ROLLBACK":
		if c.db.Fault != nil && sp == "COMMIT" {
			if err := c.db.Fault("commit", -1); err != nil {
				return io.ErrUnexpectedEOF
			}
		}
		if c.failed {
			tag = "ROLLBACK"
		}
		c.endTx(tag == "ROLLBACK")
		c.inTx, c.failed = false, false
	case "":
		names, types, _, err := c.describe(q)
		if err != nil {
			return err
		}
		rows, n, err := c.conn.run(context.Background(), q, args)
		if err != nil {
			if c.bad {
				return io.ErrUnexpectedEOF
			}
			return err
		}
		if desc && len(names) > 0 {
			c.rowDesc(names, types)
		}
		for i, r := range rows.rows {
			if c.db.Fault != nil && c.db.Fault(q, i) != nil {
				return io.ErrUnexpectedEOF
			}
			b := binary.BigEndian.AppendUint16(nil, uint16(len(r)))
			for j, v := range r {
				if n, ok := v.(int64); ok && p.binary(j) {
					if types[j] == 20 {
						b = binary.BigEndian.AppendUint64(append(b, 0, 0, 0, 8), uint64(n))
					} else {
						b = binary.BigEndian.AppendUint32(append(b, 0, 0, 0, 4), uint32(n))
					}
					continue
				}
				if v == nil {
					b = append(b, 0xff, 0xff, 0xff, 0xff)
					continue
				}
				var s string
				switch x := v.(type) {
				case jsonb:
					js, _ := json.Marshal(x)
					s = string(js)
				case bool:
					s = map[bool]string{true: "t", false: "f"}[x]
				case time.Time:
					s = x.UTC().Format("2006-01-02 15:04:05.999999-07")
				default:
					s = fmt.Sprint(x)
				}
				b = binary.BigEndian.AppendUint32(b, uint32(len(s)))
				b = append(b, s...)
			}
			c.msg('D', b)
		}
		verb := strings.ToUpper(strings.Fields(q)[0])
		switch verb {
		case "SELECT":
			n = int64(len(rows.rows))
		case "INSERT":
			verb = "INSERT 0"
		}
		tag = fmt.Sprintf("%s %d", verb, n)
	}
	c.msg('C', append([]byte(tag), 0))
	return nil
}

func cstr(b []byte) (string, []byte) {
	for i, x := range b {
		if x == 0 {
			return string(b[:i]), b[i+1:]
		}
	}
	return string(b), nil
}

func (w *Wire) serve(nc net.Conn) {
	c := &wconn{conn: &conn{db: w.db}, w: w, r: bufio.NewReader(nc), stmts: map[string]string{}, portals: map[string]portal{}}
	defer func() {
		c.conn.Close()
		nc.Close()
		w.lock.Lock()
		delete(w.conns, nc)
		w.lock.Unlock()
		w.wg.Done()
	}()
	read := func(n int) []byte {
		b := make([]byte, n)
		if _, err := io.ReadFull(c.r, b); err != nil {
			return nil
		}
		return b
	}
	flush := func() bool {
		_, err := nc.Write(c.out)
		c.out = c.out[:0]
		return err == nil
	}
	// the start-up
	for {
		h := read(8)
		if h == nil {
			return
		}
		n, code := binary.BigEndian.Uint32(h), binary.BigEndian.Uint32(h[4:])
		if code == 80877103 { // SSL
			if _, err := nc.Write([]byte("N")); err != nil {
				return
			}
			continue
		}
		if code != 196608 || n > 100000 {
			return
		}
		body := read(int(n) - 8)
		ps := map[string]string{}
		for len(body) > 1 {
			var k, v string
			k, body = cstr(body)
			v, body = cstr(body)
			ps[k] = v
		}
		if w.Startup != nil {
			w.Startup(ps)
		}
		break
	}
	c.msg('R', []byte{0, 0, 0, 0})
	c.msg('S', []byte("server_version\x0015.0\x00"))
	c.msg('S', []byte("TimeZone\x00UTC\x00"))
	c.msg('S', []byte("client_encoding\x00UTF8\x00"))
	c.msg('K', []byte{0, 0, 0, 1, 0, 0, 0, 1})
	c.ready()
	if !flush() {
		return
	}
	skip := false
	for {
		h := read(5)
		if h == nil {
			return
		}
		n := int(binary.BigEndian.Uint32(h[1:])) - 4
		if n < 0 || n > 64<<20 {
			return
		}
		b := read(n)
		if b == nil && n > 0 {
			return
		}
		var err error
		switch h[0] {
		case 'X':
			return
		case 'Q':
			q, _ := cstr(b)
			if err = c.run(portal{q: q}, true); err == io.ErrUnexpectedEOF {
				flush()
				return
			} else if err != nil {
				c.error(err)
			}
			c.ready()
			if !flush() {
				return
			}
			continue
		case 'S':
			skip = false
			c.ready()
			if !flush() {
				return
			}
			continue
		case 'H':
			if !flush() {
				return
			}
			continue
		}
		if skip {
			continue
		}
		switch h[0] {
		case 'P':
			name, r := cstr(b)
			q, _ := cstr(r)
			c.stmts[name] = q
			if _, _, _, err = c.describe(q); err == nil {
				c.msg('1', nil)
			}
		case 'D':
			name, _ := cstr(b[1:])
			q := c.stmts[name]
			if b[0] == 'P' {
				q = c.portals[name].q
			}
			names, types, params, e := c.describe(q)
			if err = e; err == nil {
				if b[0] == 'S' {
					pb := binary.BigEndian.AppendUint16(nil, uint16(params))
					for i := 0; i < params; i++ {
						pb = binary.BigEndian.AppendUint32(pb, 25)
					}
					c.msg('t', pb)
				}
				c.rowDesc(names, types)
			}
		case 'B':
			pn, r := cstr(b)
			sn, r := cstr(r)
			p := portal{q: c.stmts[sn]}
			nf := int(binary.BigEndian.Uint16(r))
			r = r[2+2*nf:]
			na := int(binary.BigEndian.Uint16(r))
			r = r[2:]
			for i := 0; i < na; i++ {
				l := int32(binary.BigEndian.Uint32(r))
				r = r[4:]
				if l < 0 {
					p.args = append(p.args, driver.NamedValue{Ordinal: i + 1})
					continue
				}
				p.args = append(p.args, driver.NamedValue{Ordinal: i + 1, Value: string(r[:l])})
				r = r[l:]
			}
			for n := int(binary.BigEndian.Uint16(r)); n > 0; n-- {
				r = r[2:]
				p.bin = append(p.bin, r[1] == 1)
			}
			c.portals[pn] = p
			c.msg('2', nil)
		case 'E':
			pn, _ := cstr(b)
			p := c.portals[pn]
			err = c.run(p, false)
		case 'C':
			c.msg('3', nil)
		default:
			err = pgErr("08P01", "unexpected message %c", h[0])
		}
		if err == io.ErrUnexpectedEOF {
			flush()
			return
		}
		if err != nil {
			c.error(err)
			skip = true
		}
	}
}
