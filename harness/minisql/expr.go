// Package minisql is a small in-memory stand-in of PostgreSQL: the subset of its
// SQL a metadata storage needs, with PostgreSQL's three-valued logic, operators
// precedence, literals and error codes. It works as a database/sql driver, and the
// conditions may be evaluated over a row directly.
package minisql

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/lib/pq"
)

type (
	tok struct {
		k string // id, qid, str, num, par, op, eof
		s string
	}

	// node is an expression
	node struct {
		op   string
		subs []*node
		s    string
		v    any
		sel  *selectStmt
	}

	// row is the values by the column name
	row map[string]any

	jsonb map[string]any

	env struct {
		row      row
		excluded row
		args     []any
		db       *DB
	}

	parser struct {
		ts []tok
		p  int
	}
)

func pgErr(code, format string, args ...any) error {
	return &pq.Error{Severity: "ERROR", Code: pq.ErrorCode(code), Message: fmt.Sprintf(format, args...)}
}

type perr struct{ err error }

func fail(code, format string, args ...any) { panic(perr{pgErr(code, format, args...)}) }

func catch(err *error) {
	if r := recover(); r != nil {
		if p, ok := r.(perr); ok {
			*err = p.err
			return
		}
		panic(r)
	}
}

func isID(c byte, first bool) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80 || !first && (c >= '0' && c <= '9' || c == '$')
}

func lex(s string) []tok {
	var ts []tok
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == 0:
			fail("22021", "invalid byte sequence for encoding \"UTF8\": 0x00")
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f':
			i++
		case strings.HasPrefix(s[i:], "--"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case strings.HasPrefix(s[i:], "/*"):
			e := strings.Index(s[i+2:], "*/")
			if e < 0 {
				fail("42601", "unterminated comment")
			}
			i += e + 4
		case c == '\'' || (c == 'E' || c == 'e') && i+1 < len(s) && s[i+1] == '\'':
			esc := c != '\''
			if esc {
				i++
			}
			var sb strings.Builder
			i++
			for {
				if i >= len(s) {
					fail("42601", "unterminated quoted string")
				}
				if s[i] == '\'' {
					if i+1 < len(s) && s[i+1] == '\'' {
						sb.WriteByte('\'')
						i += 2
						continue
					}
					i++
					break
				}
				if esc && s[i] == '\\' && i+1 < len(s) {
					i++
					switch s[i] {
					case 'n':
						sb.WriteByte('\n')
					case 't':
						sb.WriteByte('\t')
					default:
						sb.WriteByte(s[i])
					}
					i++
					continue
				}
				sb.WriteByte(s[i])
				i++
			}
			ts = append(ts, tok{"str", sb.String()})
		case c == '"':
			e := strings.IndexByte(s[i+1:], '"')
			if e < 0 {
				fail("42601", "unterminated quoted identifier")
			}
			ts = append(ts, tok{"qid", s[i+1 : i+1+e]})
			i += e + 2
		case isID(c, true):
			j := i
			for j < len(s) && isID(s[j], false) {
				j++
			}
			ts = append(ts, tok{"id", strings.ToLower(s[i:j])})
			i = j
		case c >= '0' && c <= '9' || c == '.' && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9':
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == '.') {
				j++
			}
			ts = append(ts, tok{"num", s[i:j]})
			i = j
		case c == '$':
			j := i + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			ts = append(ts, tok{"par", s[i+1 : j]})
			i = j
		case strings.IndexByte("(),;.*", c) >= 0:
			ts = append(ts, tok{"op", string(c)})
			i++
		default:
			found := false
			for _, o := range []string{"->>", "->", "<=", ">=", "<>", "!=", "||", "::", "@>", "<", ">", "=", "+", "-", "/", "?"} {
				if strings.HasPrefix(s[i:], o) {
					ts = append(ts, tok{"op", o})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				fail("42601", "syntax error at or near %q", s[i:])
			}
		}
	}
	return append(ts, tok{k: "eof"})
}

func (p *parser) peek() tok { return p.ts[p.p] }
func (p *parser) next() tok { p.p++; return p.ts[p.p-1] }
func (p *parser) kw(words ...string) bool {
	for i, w := range words {
		if p.p+i >= len(p.ts) || p.ts[p.p+i].k != "id" || p.ts[p.p+i].s != w {
			return false
		}
	}
	p.p += len(words)
	return true
}
func (p *parser) op(o string) bool {
	if p.peek().k == "op" && p.peek().s == o {
		p.p++
		return true
	}
	return false
}
func (p *parser) need(o string) {
	if !p.op(o) {
		fail("42601", "syntax error at or near %q, %q is expected", p.peek().s, o)
	}
}
func (p *parser) needKw(w ...string) {
	if !p.kw(w...) {
		fail("42601", "syntax error at or near %q, %v is expected", p.peek().s, w)
	}
}
func (p *parser) ident() string {
	t := p.next()
	if t.k != "id" && t.k != "qid" {
		fail("42601", "syntax error at or near %q", t.s)
	}
	return t.s
}

func (p *parser) expr() *node { return p.or() }

func (p *parser) or() *node {
	n := p.and()
	for p.kw("or") {
		n = &node{op: "or", subs: []*node{n, p.and()}}
	}
	return n
}

func (p *parser) and() *node {
	n := p.not()
	for p.kw("and") {
		n = &node{op: "and", subs: []*node{n, p.not()}}
	}
	return n
}

func (p *parser) not() *node {
	if p.kw("not") {
		return &node{op: "not", subs: []*node{p.not()}}
	}
	return p.is()
}

func (p *parser) is() *node {
	n := p.cmp()
	for p.kw("is") {
		neg := p.kw("not")
		var t *node
		switch {
		case p.kw("null"):
			t = &node{op: "isnull", subs: []*node{n}}
		case p.kw("true"):
			t = &node{op: "istrue", subs: []*node{n}}
		case p.kw("false"):
			t = &node{op: "isfalse", subs: []*node{n}}
		case p.kw("distinct", "from"):
			t = &node{op: "distinct", subs: []*node{n, p.cmp()}}
		default:
			fail("42601", "syntax error at or near %q", p.peek().s)
		}
		if neg {
			t = &node{op: "not", subs: []*node{t}}
		}
		n = t
	}
	return n
}

var cmpOps = map[string]bool{"=": true, "<": true, ">": true, "<=": true, ">=": true, "<>": true, "!=": true}

func (p *parser) cmp() *node {
	n := p.like()
	if t := p.peek(); t.k == "op" && cmpOps[t.s] {
		p.next()
		if p.kw("any") {
			p.need("(")
			r := p.expr()
			p.need(")")
			return &node{op: "any" + t.s, subs: []*node{n, r}}
		}
		n = &node{op: t.s, subs: []*node{n, p.like()}}
		if t := p.peek(); t.k == "op" && cmpOps[t.s] {
			fail("42601", "syntax error at or near %q", t.s) // not associative
		}
	}
	return n
}

func (p *parser) like() *node {
	n := p.other()
	neg := false
	if p.peek().k == "id" && p.peek().s == "not" && p.p+1 < len(p.ts) && (p.ts[p.p+1].s == "in" || p.ts[p.p+1].s == "like" || p.ts[p.p+1].s == "between") {
		p.next()
		neg = true
	}
	switch {
	case p.kw("like"):
		n = &node{op: "like", subs: []*node{n, p.other()}}
		if p.kw("escape") {
			n.subs = append(n.subs, p.other())
		}
	case p.kw("between"):
		lo := p.other()
		p.needKw("and")
		n = &node{op: "between", subs: []*node{n, lo, p.other()}}
	case p.kw("in"):
		p.need("(")
		if p.peek().k == "id" && p.peek().s == "select" {
			n = &node{op: "insel", subs: []*node{n}, sel: p.selectStmt()}
		} else {
			n = &node{op: "in", subs: []*node{n}}
			for {
				n.subs = append(n.subs, p.expr())
				if !p.op(",") {
					break
				}
			}
		}
		p.need(")")
	}
	if neg {
		n = &node{op: "not", subs: []*node{n}}
	}
	return n
}

func (p *parser) other() *node {
	n := p.add()
	for t := p.peek(); t.k == "op" && (t.s == "->>" || t.s == "->" || t.s == "||" || t.s == "@>" || t.s == "?"); t = p.peek() {
		p.next()
		n = &node{op: t.s, subs: []*node{n, p.add()}}
	}
	return n
}

func (p *parser) add() *node {
	n := p.cast()
	for t := p.peek(); t.k == "op" && (t.s == "+" || t.s == "-"); t = p.peek() {
		p.next()
		n = &node{op: t.s, subs: []*node{n, p.cast()}}
	}
	return n
}

func (p *parser) cast() *node {
	n := p.prim()
	for p.op("::") {
		n = &node{op: "cast", s: p.typeName(), subs: []*node{n}}
	}
	return n
}

func (p *parser) typeName() string {
	s := p.ident()
	if p.op("(") {
		p.next()
		p.need(")")
	}
	for p.peek().k == "id" && (p.peek().s == "with" || p.peek().s == "without" || p.peek().s == "time" || p.peek().s == "zone" || p.peek().s == "varying") {
		p.next()
	}
	return s
}

func (p *parser) prim() *node {
	t := p.next()
	switch t.k {
	case "str":
		return &node{op: "const", v: unknown(t.s)}
	case "num":
		if i, err := strconv.ParseInt(t.s, 10, 64); err == nil {
			return &node{op: "const", v: i}
		}
		f, _ := strconv.ParseFloat(t.s, 64)
		return &node{op: "const", v: f}
	case "par":
		i, err := strconv.Atoi(t.s)
		if err != nil || i < 1 {
			fail("42601", "bad parameter $%s", t.s)
		}
		return &node{op: "param", v: i}
	case "op":
		switch t.s {
		case "(":
			if p.peek().k == "id" && p.peek().s == "select" {
				n := &node{op: "scalar", sel: p.selectStmt()}
				p.need(")")
				return n
			}
			n := p.expr()
			if p.op(",") {
				n = &node{op: "row", subs: []*node{n}}
				for {
					n.subs = append(n.subs, p.expr())
					if !p.op(",") {
						break
					}
				}
			}
			p.need(")")
			return n
		case "-":
			return &node{op: "neg", subs: []*node{p.cast()}}
		case "*":
			return &node{op: "star"}
		}
	case "qid", "id":
		if t.k == "id" {
			switch t.s {
			case "true":
				return &node{op: "const", v: true}
			case "false":
				return &node{op: "const", v: false}
			case "null":
				return &node{op: "const"}
			case "exists":
				p.need("(")
				n := &node{op: "exists", sel: p.selectStmt()}
				p.need(")")
				return n
			case "array":
			case "case":
				n := &node{op: "case"}
				for p.kw("when") {
					c := p.expr()
					p.needKw("then")
					n.subs = append(n.subs, c, p.expr())
				}
				if p.kw("else") {
					n.subs = append(n.subs, p.expr())
				}
				p.needKw("end")
				return n
			case "select", "from", "where", "and", "or", "not", "in", "like", "order", "limit", "group", "having", "union":
				fail("42601", "syntax error at or near %q", t.s)
			}
		}
		if p.op("(") {
			n := &node{op: "func", s: t.s}
			if !p.op(")") {
				for {
					n.subs = append(n.subs, p.expr())
					if !p.op(",") {
						break
					}
				}
				p.need(")")
			}
			return n
		}
		if p.op(".") {
			if p.op("*") {
				return &node{op: "star"}
			}
			c := p.ident()
			if t.s == "excluded" {
				return &node{op: "excluded", s: c}
			}
			return &node{op: "col", s: c}
		}
		return &node{op: "col", s: t.s}
	}
	fail("42601", "syntax error at or near %q", t.s)
	return nil
}

// unknown is a literal which takes the type from the context
type unknown string

// value unwraps unknown to the string
func plain(v any) any {
	if u, ok := v.(unknown); ok {
		return string(u)
	}
	return v
}

func (e *env) eval(n *node) any {
	switch n.op {
	case "const":
		return n.v
	case "param":
		i := n.v.(int)
		if i > len(e.args) {
			fail("08P01", "there is no parameter $%d", i)
		}
		switch v := e.args[i-1].(type) {
		case string:
			return unknown(v)
		case []byte:
			return unknown(v)
		default:
			return v
		}
	case "col":
		v, ok := e.row[n.s]
		if !ok {
			fail("42703", "column %q does not exist", n.s)
		}
		return v
	case "excluded":
		v, ok := e.excluded[n.s]
		if !ok {
			fail("42703", "column excluded.%q does not exist", n.s)
		}
		return v
	case "and":
		l, r := e.boolean(n.subs[0]), e.boolean(n.subs[1])
		if l == false || r == false {
			return false
		}
		if l == nil || r == nil {
			return nil
		}
		return true
	case "or":
		l, r := e.boolean(n.subs[0]), e.boolean(n.subs[1])
		if l == true || r == true {
			return true
		}
		if l == nil || r == nil {
			return nil
		}
		return false
	case "not":
		l := e.boolean(n.subs[0])
		if l == nil {
			return nil
		}
		return !l.(bool)
	case "isnull":
		return e.eval(n.subs[0]) == nil
	case "istrue":
		return e.boolean(n.subs[0]) == true
	case "isfalse":
		return e.boolean(n.subs[0]) == false
	case "distinct":
		l, r := e.eval(n.subs[0]), e.eval(n.subs[1])
		if l == nil || r == nil {
			return !(l == nil && r == nil)
		}
		return compare("<>", l, r)
	case "=", "<", ">", "<=", ">=", "<>", "!=":
		return compare(n.op, e.eval(n.subs[0]), e.eval(n.subs[1]))
	case "between":
		v := e.eval(n.subs[0])
		l, r := compare(">=", v, e.eval(n.subs[1])), compare("<=", v, e.eval(n.subs[2]))
		if l == false || r == false {
			return false
		}
		if l == nil || r == nil {
			return nil
		}
		return true
	case "in":
		v := e.eval(n.subs[0])
		var res any = false
		for _, s := range n.subs[1:] {
			c := compare("=", v, e.eval(s))
			if c == true {
				return true
			}
			if c == nil {
				res = nil
			}
		}
		return res
	case "insel":
		v := e.eval(n.subs[0])
		var res any = false
		for _, r := range e.db.runSelect(n.sel, e.args) {
			c := compare("=", v, r[0])
			if c == true {
				return true
			}
			if c == nil {
				res = nil
			}
		}
		return res
	case "exists":
		return len(e.db.runSelect(n.sel, e.args)) > 0
	case "scalar":
		rs := e.db.runSelect(n.sel, e.args)
		if len(rs) == 0 {
			return nil
		}
		return rs[0][0]
	case "like":
		l, r := plain(e.eval(n.subs[0])), plain(e.eval(n.subs[1]))
		if l == nil || r == nil {
			return nil
		}
		ls, ok1 := l.(string)
		rs, ok2 := r.(string)
		if !ok1 || !ok2 {
			fail("42883", "operator does not exist: %T ~~ %T", l, r)
		}
		esc := "\\"
		if len(n.subs) > 2 {
			esc, _ = plain(e.eval(n.subs[2])).(string)
		}
		return like([]rune(ls), []rune(rs), esc)
	case "->>", "->":
		l, r := e.eval(n.subs[0]), plain(e.eval(n.subs[1]))
		if l == nil || r == nil {
			return nil
		}
		j, ok := l.(jsonb)
		if !ok {
			fail("42883", "operator does not exist: %T ->> %T", l, r)
		}
		k, ok := r.(string)
		if !ok {
			fail("42883", "operator does not exist: jsonb ->> %T", r)
		}
		v, ok := j[k]
		if !ok || v == nil {
			return nil
		}
		if s, ok := v.(string); ok {
			return s
		}
		b, _ := json.Marshal(v)
		return string(b)
	case "?":
		j, ok := e.eval(n.subs[0]).(jsonb)
		if !ok {
			return nil
		}
		_, ok = j[plain(e.eval(n.subs[1])).(string)]
		return ok
	case "||":
		l, r := plain(e.eval(n.subs[0])), plain(e.eval(n.subs[1]))
		if l == nil || r == nil {
			return nil
		}
		return fmt.Sprint(l) + fmt.Sprint(r)
	case "+", "-":
		l, r := e.eval(n.subs[0]), e.eval(n.subs[1])
		if l == nil || r == nil {
			return nil
		}
		a, b := toInt(l), toInt(r)
		if n.op == "+" {
			return a + b
		}
		return a - b
	case "neg":
		v := e.eval(n.subs[0])
		if v == nil {
			return nil
		}
		return -toInt(v)
	case "cast":
		return castTo(e.eval(n.subs[0]), n.s)
	case "case":
		i := 0
		for ; i+1 < len(n.subs); i += 2 {
			if e.boolean(n.subs[i]) == true {
				return e.eval(n.subs[i+1])
			}
		}
		if i < len(n.subs) {
			return e.eval(n.subs[i])
		}
		return nil
	case "func":
		switch n.s {
		case "coalesce":
			for _, s := range n.subs {
				if v := e.eval(s); v != nil {
					return v
				}
			}
			return nil
		case "now":
			return time.Now()
		case "lower", "upper", "length":
			v := plain(e.eval(n.subs[0]))
			if v == nil {
				return nil
			}
			s, _ := v.(string)
			switch n.s {
			case "lower":
				return strings.ToLower(s)
			case "upper":
				return strings.ToUpper(s)
			}
			return int64(len([]rune(s)))
		}
		fail("42883", "function %s does not exist", n.s)
	}
	if strings.HasPrefix(n.op, "any") {
		v := e.eval(n.subs[0])
		arr := e.eval(n.subs[1])
		var ss pq.StringArray
		if err := ss.Scan([]byte(fmt.Sprint(plain(arr)))); err != nil {
			fail("22P02", "malformed array literal: %v", arr)
		}
		for _, s := range ss {
			if compare(n.op[3:], v, unknown(s)) == true {
				return true
			}
		}
		return false
	}
	fail("0A000", "not supported expression %s", n.op)
	return nil
}

func (e *env) boolean(n *node) any {
	v := e.eval(n)
	if u, ok := v.(unknown); ok {
		v = castTo(u, "boolean")
	}
	if v == nil {
		return nil
	}
	b, ok := v.(bool)
	if !ok {
		fail("42804", "argument must be type boolean, not type %T", v)
	}
	return b
}

func toInt(v any) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case int:
		return int64(x)
	case float64:
		return int64(x)
	case unknown:
		i, err := strconv.ParseInt(string(x), 10, 64)
		if err != nil {
			fail("22P02", "invalid input syntax for type integer: %q", string(x))
		}
		return i
	}
	fail("42883", "not a number: %T", v)
	return 0
}

func castTo(v any, tp string) any {
	if v == nil {
		return nil
	}
	switch tp {
	case "text", "varchar", "character", "string":
		switch x := v.(type) {
		case unknown:
			if strings.IndexByte(string(x), 0) >= 0 {
				fail("22021", "invalid byte sequence for encoding \"UTF8\": 0x00")
			}
			return string(x)
		case string:
			return x
		case jsonb:
			b, _ := json.Marshal(x)
			return string(b)
		}
		return fmt.Sprint(v)
	case "integer", "int", "bigint", "int4", "int8":
		return toInt(v)
	case "boolean", "bool":
		switch x := v.(type) {
		case bool:
			return x
		case unknown:
			switch strings.ToLower(string(x)) {
			case "t", "true":
				return true
			case "f", "false":
				return false
			}
		}
		fail("22P02", "invalid input syntax for type boolean: %v", v)
	case "jsonb", "json":
		switch x := v.(type) {
		case jsonb:
			return x
		case unknown:
			var m map[string]any
			if strings.Contains(string(x), "\\u0000") {
				fail("22P05", "unsupported Unicode escape sequence")
			}
			if err := json.Unmarshal([]byte(x), &m); err != nil {
				fail("22P02", "invalid input syntax for type json: %s", string(x))
			}
			if m == nil {
				m = map[string]any{}
			}
			return jsonb(m)
		}
		fail("42846", "cannot cast %T to jsonb", v)
	case "timestamptz", "timestamp":
		switch x := v.(type) {
		case time.Time:
			return x.Round(time.Microsecond)
		case unknown:
			for _, l := range []string{time.RFC3339Nano, "2006-01-02 15:04:05.999999999Z07:00", "2006-01-02 15:04:05.999999999 -0700"} {
				if t, err := time.Parse(l, string(x)); err == nil {
					return t.Round(time.Microsecond)
				}
			}
		}
		fail("22007", "invalid input syntax for type timestamp: %v", v)
	}
	fail("42704", "type %q does not exist", tp)
	return nil
}

func typeOf(v any) string {
	switch v.(type) {
	case string:
		return "text"
	case int64, int, float64:
		return "bigint"
	case bool:
		return "boolean"
	case time.Time:
		return "timestamptz"
	case jsonb:
		return "jsonb"
	}
	return ""
}

// compare returns true, false or nil
func compare(op string, l, r any) any {
	if l == nil || r == nil {
		return nil
	}
	_, lu := l.(unknown)
	_, ru := r.(unknown)
	switch {
	case lu && ru:
		l, r = plain(l), plain(r)
	case lu:
		l = castTo(l, typeOf(r))
	case ru:
		r = castTo(r, typeOf(l))
	}
	if typeOf(l) != typeOf(r) {
		fail("42883", "operator does not exist: %s %s %s", typeOf(l), op, typeOf(r))
	}
	c := 0
	switch x := l.(type) {
	case string:
		c = strings.Compare(x, r.(string))
	case bool:
		a, b := 0, 0
		if x {
			a = 1
		}
		if r.(bool) {
			b = 1
		}
		c = a - b
	case time.Time:
		c = x.Compare(r.(time.Time))
	case jsonb:
		a, _ := json.Marshal(x)
		b, _ := json.Marshal(r)
		c = strings.Compare(string(a), string(b))
	default:
		a, b := toInt(l), toInt(r)
		switch {
		case a < b:
			c = -1
		case a > b:
			c = 1
		}
	}
	switch op {
	case "=":
		return c == 0
	case "<":
		return c < 0
	case ">":
		return c > 0
	case "<=":
		return c <= 0
	case ">=":
		return c >= 0
	}
	return c != 0
}

// like is LIKE of PostgreSQL: % and _ with the escape character
func like(s, pat []rune, esc string) bool {
	if len(pat) == 0 {
		return len(s) == 0
	}
	switch {
	case esc != "" && string(pat[0]) == esc:
		if len(pat) == 1 {
			fail("22025", "LIKE pattern must not end with escape character")
		}
		return len(s) > 0 && s[0] == pat[1] && like(s[1:], pat[2:], esc)
	case pat[0] == '%':
		for i := 0; i <= len(s); i++ {
			if like(s[i:], pat[1:], esc) {
				return true
			}
		}
		return false
	case pat[0] == '_':
		return len(s) > 0 && like(s[1:], pat[1:], esc)
	}
	return len(s) > 0 && s[0] == pat[0] && like(s[1:], pat[1:], esc)
}

// Where is a parsed condition
type Where struct{ n *node }

// ParseWhere parses a boolean SQL expression
func ParseWhere(s string) (w *Where, err error) {
	defer catch(&err)
	p := &parser{ts: lex(s)}
	w = &Where{n: p.expr()}
	if p.peek().k != "eof" {
		fail("42601", "syntax error at or near %q", p.peek().s)
	}
	return w, nil
}

// LogRow evaluates the condition over a row of the log table: 1 - true, 0 - false, -1 - NULL
func (w *Where) LogRow(id string, tags map[string]string) (res int, err error) {
	defer catch(&err)
	j := jsonb{}
	for k, v := range tags {
		j[k] = v
	}
	e := &env{row: row{"id": id, "tags": j}, db: &DB{}}
	switch e.boolean(w.n) {
	case true:
		return 1, nil
	case nil:
		return -1, nil
	}
	return 0, nil
}
