// Package lcond is the reference language of logs conditions: it generates
// random conditions as its own AST, prints them as the text and evaluates the
// AST over a log without using the parser or the evaluator under test.
package lcond

import (
	"math/rand"
	"strings"
)

type (
	// Cond is a node of the condition
	Cond struct {
		Kind string // or, and, not, cmp, in, like
		Subs []*Cond
		// L is the left value; R is the right one for cmp
		L, R Val
		Op   string
		// Arr is the list for IN, Pat is the pattern for LIKE
		Arr []string
		Pat string
	}

	// Val is a value: either the log ID, a tag value or a constant
	Val struct {
		Kind string // id, tag, const
		S    string
	}

	// Gen generates the conditions
	Gen struct {
		R *rand.Rand
		// Tags are the tag names, Vals are the values used, IDs are log IDs
		Tags []string
		Vals []string
		IDs  []string
		// Depth is the maximum nesting
		Depth int
		// Pats generates patterns with % only if true
		NoLike bool
		// Under allows _ in LIKE patterns, which is not special for the evaluator
		Under bool
		// NoEmptyIn doesn't allow to generate empty lists
		NoEmptyIn bool
	}
)

// Eval returns whether the log matches. The tag that is not set is an empty string
func (c *Cond) Eval(id string, tags map[string]string) bool {
	switch c.Kind {
	case "or":
		for _, s := range c.Subs {
			if s.Eval(id, tags) {
				return true
			}
		}
		return false
	case "and":
		for _, s := range c.Subs {
			if !s.Eval(id, tags) {
				return false
			}
		}
		return true
	case "not":
		return !c.Subs[0].Eval(id, tags)
	case "in":
		v := c.L.eval(id, tags)
		for _, a := range c.Arr {
			if a == v {
				return true
			}
		}
		return false
	case "like":
		return Like(c.L.eval(id, tags), c.Pat)
	}
	l, r := c.L.eval(id, tags), c.R.eval(id, tags)
	switch c.Op {
	case "<":
		return l < r
	case ">":
		return l > r
	case "<=":
		return l <= r
	case ">=":
		return l >= r
	case "=":
		return l == r
	case "!=":
		return l != r
	}
	panic("op " + c.Op)
}

// Tags collects names of tags the condition refers to
func (c *Cond) TagNames(m map[string]bool) {
	for _, s := range c.Subs {
		s.TagNames(m)
	}
	for _, v := range []Val{c.L, c.R} {
		if v.Kind == "tag" {
			m[v.S] = true
		}
	}
}

// Size returns number of the nodes
func (c *Cond) Size() int {
	n := 1
	for _, s := range c.Subs {
		n += s.Size()
	}
	return n
}

// Shape returns the condition without values
func (c *Cond) Shape() string {
	if len(c.Subs) == 0 {
		return c.Kind + c.Op + c.L.Kind + c.R.Kind
	}
	var ps []string
	for _, s := range c.Subs {
		ps = append(ps, s.Shape())
	}
	return c.Kind + "(" + strings.Join(ps, " ") + ")"
}

// Like matches s against the pattern: % is any sequence (recursive, so independent
// of the implementation)
func Like(s, pat string) bool {
	i := strings.IndexByte(pat, '%')
	if i < 0 {
		return s == pat
	}
	if !strings.HasPrefix(s, pat[:i]) {
		return false
	}
	s, pat = s[i:], pat[i+1:]
	for k := 0; k <= len(s); k++ {
		if Like(s[k:], pat) {
			return true
		}
	}
	return false
}

func (v Val) eval(id string, tags map[string]string) string {
	switch v.Kind {
	case "id":
		return id
	case "tag":
		return tags[v.S]
	}
	return v.S
}

func (g *Gen) pick(ss ...string) string { return ss[g.R.Intn(len(ss))] }

// Cond generates a condition
func (g *Gen) Cond() *Cond { return g.cond(g.Depth) }

func (g *Gen) cond(depth int) *Cond {
	k := g.R.Intn(10)
	if depth <= 0 || k < 4 {
		return g.leaf()
	}
	if k < 6 {
		return &Cond{Kind: "not", Subs: []*Cond{g.cond(depth - 1)}}
	}
	c := &Cond{Kind: g.pick("or", "and")}
	for n := 2 + g.R.Intn(3); n > 0; n-- {
		c.Subs = append(c.Subs, g.cond(depth-1))
	}
	return c
}

func (g *Gen) left() Val {
	if g.R.Intn(4) == 0 {
		return Val{Kind: "id"}
	}
	return Val{Kind: "tag", S: g.pick(g.Tags...)}
}

func (g *Gen) str(l Val) string {
	if l.Kind == "id" && len(g.IDs) > 0 && g.R.Intn(6) != 0 {
		s := g.pick(g.IDs...)
		switch g.R.Intn(6) {
		case 0:
			return s[:g.R.Intn(len(s)+1)]
		case 1:
			return s + "0"
		}
		return s
	}
	s := g.pick(g.Vals...)
	if rs := []rune(s); g.R.Intn(6) == 0 && len(rs) > 0 {
		return string(rs[:g.R.Intn(len(rs))])
	}
	return s
}

func (g *Gen) leaf() *Cond {
	l := g.left()
	switch k := g.R.Intn(10); {
	case k < 6:
		c := &Cond{Kind: "cmp", L: l, Op: g.pick("<", ">", "<=", ">=", "=", "!=", "=", "=")}
		if g.R.Intn(5) == 0 {
			c.R = Val{Kind: "tag", S: g.pick(g.Tags...)}
		} else {
			c.R = Val{Kind: "const", S: g.str(l)}
		}
		return c
	case k < 8 || g.NoLike:
		c := &Cond{Kind: "in", L: l}
		n := g.R.Intn(5)
		if g.R.Intn(6) == 0 { // a long list
			n = 5 + g.R.Intn(40)
		}
		if g.NoEmptyIn && n == 0 {
			n = 1
		}
		for ; n > 0; n-- {
			c.Arr = append(c.Arr, g.str(l))
		}
		return c
	}
	s := g.str(l)
	var sb strings.Builder
	switch g.R.Intn(7) {
	case 6: // the parts between the wildcards overlap in the value
		rs := []rune(s)
		if len(rs) == 0 {
			sb.WriteString("%%")
			break
		}
		i := 1 + g.R.Intn(len(rs))
		j := max(0, i-1-g.R.Intn(2))
		k := min(len(rs), j+1+g.R.Intn(3))
		m := max(0, k-1-g.R.Intn(2))
		sb.WriteString(string(rs[:i]) + "%" + string(rs[j:k]) + "%" + string(rs[m:]))
	case 5: // mostly the characters which may be special
		for n := 1 + g.R.Intn(3); n > 0; n-- {
			if g.Under && g.R.Intn(2) == 0 {
				sb.WriteByte('_')
				continue
			}
			sb.WriteString(g.pick("%", "%", "a", "x", "*", "?"))
		}
	case 0: // prefix
		rs := []rune(s)
		sb.WriteString(string(rs[:g.R.Intn(len(rs)+1)]) + "%")
	case 1: // suffix
		rs := []rune(s)
		sb.WriteString("%" + string(rs[g.R.Intn(len(rs)+1):]))
	case 2:
		sb.WriteString(s)
	default:
		for _, r := range s {
			switch g.R.Intn(5) {
			case 0:
				sb.WriteByte('%')
			case 1:
				sb.WriteByte('%')
				sb.WriteRune(r)
			default:
				sb.WriteRune(r)
			}
		}
	}
	return &Cond{Kind: "like", L: l, Pat: sb.String()}
}

// Text prints the condition in one of the ways it can be written
func (g *Gen) Text(c *Cond) string {
	sp := func() string { return g.pick(" ", " ", " ", "  ", "\t", "\n") }
	osp := func() string { return g.pick("", "", " ") }
	kw := func(s string) string { return g.pick(s, s, strings.ToLower(s), strings.Title(strings.ToLower(s))) }
	switch c.Kind {
	case "or", "and":
		ps := make([]string, len(c.Subs))
		for i, s := range c.Subs {
			ps[i] = g.Text(s)
			if c.Kind == "and" && s.Kind == "or" || g.R.Intn(5) == 0 {
				ps[i] = "(" + osp() + ps[i] + osp() + ")"
			}
		}
		return strings.Join(ps, sp()+kw(strings.ToUpper(c.Kind))+sp())
	case "not":
		s := c.Subs[0]
		if len(s.Subs) == 0 && g.R.Intn(2) == 0 {
			return kw("NOT") + sp() + g.Text(s)
		}
		return kw("NOT") + osp() + "(" + g.Text(s) + ")"
	case "in":
		ps := make([]string, len(c.Arr))
		for i, a := range c.Arr {
			ps[i] = g.Quote(a)
		}
		return g.val(c.L) + sp() + kw("IN") + osp() + "[" + osp() + strings.Join(ps, osp()+","+osp()) + osp() + "]"
	case "like":
		return g.val(c.L) + sp() + kw("LIKE") + osp() + g.Quote(c.Pat)
	}
	return g.val(c.L) + osp() + c.Op + osp() + g.val(c.R)
}

func (g *Gen) val(v Val) string {
	switch v.Kind {
	case "id":
		return "logID"
	case "tag":
		return "tag(" + g.pick("", "", " ") + g.Quote(v.S) + ")"
	}
	return g.Quote(v.S)
}

// Quote makes a literal of the string. The string must not have both kinds of quotes
func (g *Gen) Quote(s string) string {
	q := "'"
	if strings.Contains(s, "'") || !strings.Contains(s, "\"") && g.R.Intn(2) == 0 {
		q = "\""
	}
	return q + s + q
}
