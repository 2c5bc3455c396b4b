// Package tcond is the reference language of records conditions (on the creation time)
package tcond

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"
)

// Cond is the reference AST of a record condition: it evaluates exactly what the
// text says about the record creation time (millisecond precision instants)
type Cond struct {
	Kind string // or, and, not, cmp
	Subs []*Cond
	Op   string
	Val  time.Time
	Lit  string
}

func (t *Cond) Eval(ct time.Time) bool {
	switch t.Kind {
	case "or":
		for _, s := range t.Subs {
			if s.Eval(ct) {
				return true
			}
		}
		return false
	case "and":
		for _, s := range t.Subs {
			if !s.Eval(ct) {
				return false
			}
		}
		return true
	case "not":
		return !t.Subs[0].Eval(ct)
	}
	switch t.Op {
	case "<":
		return ct.Before(t.Val)
	case ">":
		return ct.After(t.Val)
	case "<=":
		return !ct.After(t.Val)
	case ">=":
		return !ct.Before(t.Val)
	case "=":
		return ct.Equal(t.Val)
	case "!=":
		return !ct.Equal(t.Val)
	}
	panic("op " + t.Op)
}

func (t *Cond) Text(c *rand.Rand) string {
	sp := func() string { return pick(c, " ", " ", "  ", "\t", "\n") }
	kw := func(s string) string { return pick(c, s, s, strings.ToLower(s)) }
	switch t.Kind {
	case "or", "and":
		ps := make([]string, len(t.Subs))
		for i, s := range t.Subs {
			ps[i] = s.Text(c)
			if t.Kind == "and" && s.Kind == "or" || len(t.Subs) > 1 && c.Intn(5) == 0 {
				ps[i] = "(" + ps[i] + ")"
			}
		}
		return strings.Join(ps, sp()+kw(strings.ToUpper(t.Kind))+sp())
	case "not":
		s := t.Subs[0]
		if s.Kind == "cmp" && c.Intn(2) == 0 {
			return kw("NOT") + sp() + s.Text(c)
		}
		return kw("NOT") + pick(c, "", " ") + "(" + s.Text(c) + ")"
	}
	q := pick(c, "'", "\"")
	return "ctime" + pick(c, "", " ") + t.Op + pick(c, "", " ") + q + t.Lit + q
}

// GenTime chooses an instant around the interesting points and a literal for it
func GenTime(c *rand.Rand, pts []time.Time) (time.Time, string) {
	base := time.Now()
	if len(pts) > 0 {
		base = pts[c.Intn(len(pts))]
	}
	switch c.Intn(8) {
	case 0, 1:
	case 2:
		base = base.Add(time.Duration(c.Intn(7)-3) * time.Millisecond)
	case 3, 4:
		base = base.Add(time.Duration(c.Intn(2000001) - 1000000))
	case 5:
		base = base.Add(time.Duration(pick(c, -1, 1, 999999, -999999, 500000)))
	case 6:
		base = base.Add(time.Duration(c.Intn(20001)-10000) * time.Millisecond)
	case 7:
		switch c.Intn(6) {
		case 0:
			base = time.Unix(0, 0)
		case 1:
			base = time.Date(2070, 1, 1, 0, 0, 0, 0, time.UTC)
		case 2:
			base = time.Date(1969, 12, 31, 23, 59, 59, 0, time.UTC)
		case 3:
			base = time.Date(2100, 5, 6, 7, 8, 9, 0, time.UTC)
		case 4:
			base = time.Date(1990, 5, 6, 7, 8, 9, 0, time.UTC)
		case 5:
			base = time.Date(2050, 5, 6, 7, 8, 9, 0, time.UTC)
		}
	}
	base = base.UTC()
	switch c.Intn(6) {
	case 0:
		base = base.Truncate(time.Millisecond)
		return base, base.Format("2006-01-02T15:04:05.000") + pick(c, "Z", "+00:00")
	case 1:
		base = base.Truncate(time.Second)
		return base, base.Format("2006-01-02 15:04:05")
	}
	return base, fmt.Sprint(base.UnixNano())
}

func Gen(c *rand.Rand, pts []time.Time, depth int) *Cond {
	k := c.Intn(10)
	if depth <= 0 || k < 4 {
		t := &Cond{Kind: "cmp", Op: pick(c, "<", ">", "<=", ">=", "=", "!=", "<", ">")}
		t.Val, t.Lit = GenTime(c, pts)
		return t
	}
	if k == 4 || k == 5 {
		return &Cond{Kind: "not", Subs: []*Cond{Gen(c, pts, depth-1)}}
	}
	if len(pts) > 3 && c.Intn(4) == 0 {
		return Bands(c, pts)
	}
	t := &Cond{Kind: pick(c, "or", "and")}
	for n := 2 + c.Intn(2); n > 0; n-- {
		t.Subs = append(t.Subs, Gen(c, pts, depth-1))
	}
	return t
}

func pick[T any](c *rand.Rand, vs ...T) T { return vs[c.Intn(len(vs))] }

// Bands is a few separate ranges of time
func Bands(c *rand.Rand, pts []time.Time) *Cond {
	type point struct {
		v time.Time
		l string
	}
	ps := make([]point, 2*(2+c.Intn(6)))
	for i := range ps {
		if c.Intn(4) == 0 {
			ps[i].v, ps[i].l = GenTime(c, pts)
			continue
		}
		ps[i].v = pts[c.Intn(len(pts))].Add(time.Duration(pick(c, 0, 0, -1, 1, 500000, -500000, c.Intn(2000001)-1000000))).UTC()
		ps[i].l = fmt.Sprint(ps[i].v.UnixNano())
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].v.Before(ps[j].v) })
	t := &Cond{Kind: "or"}
	for i := 0; i < len(ps); i += 2 {
		t.Subs = append(t.Subs, &Cond{Kind: "and", Subs: []*Cond{{Kind: "cmp", Op: pick(c, ">", ">="), Val: ps[i].v, Lit: ps[i].l},
			{Kind: "cmp", Op: pick(c, "<", "<="), Val: ps[i+1].v, Lit: ps[i+1].l}}})
	}
	c.Shuffle(len(t.Subs), func(i, j int) { t.Subs[i], t.Subs[j] = t.Subs[j], t.Subs[i] })
	return t
}
