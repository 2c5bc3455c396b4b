package qlm

import (
	"cmp"
	"fmt"
	"time"

	"github.com/solarisdb/solaris/pkg/intervals"
	"verif/harness/fw"
)

func init() {
	fw.Register(&fw.Prop{
		ID: "Q03",
		Rule: "laws: every pair of intervals (all kinds of borders, degenerate ones as well) over a small domain, embedded into integers, floats, strings and time instants, is combined " +
			"by all operations; the results are compared with the sets of points, where the places between the neighbour values are points too. Non-trivial: the intervals are not " +
			"empty; distinct by the operation and the pair of intervals",
		MinEvents: []string{"negate", "intersect", "union", "order", "touching"},
		Scens:     []fw.Scenario{{Name: "laws", Quick: 48, Thorough: 400, Run: q03Laws}},
	})
}

// ival is the reference interval: the set of points 0..2*n, even points are the values, odd ones are between them
type pset uint64

func mk[T any](i intervals.Interval[T], idx func(T) int) pset {
	var s pset
	l, r := 2*idx(i.L), 2*idx(i.R)
	for p := l; p <= r; p++ {
		if (p > l || i.LIn) && (p < r || i.RIn) {
			s |= 1 << p
		}
	}
	return s
}

func (s pset) inf() int {
	for p := 0; p < 64; p++ {
		if s>>p&1 == 1 {
			return p
		}
	}
	return -1
}

func (s pset) sup() int {
	for p := 63; p >= 0; p-- {
		if s>>p&1 == 1 {
			return p
		}
	}
	return -1
}

func q03Laws(c *fw.Case) {
	n := 3 + c.Idx%4
	switch c.Idx / 4 % 4 {
	case 0:
		laws(c, "int", n, func(i int) int { return 10*i - 25 }, cmp.Compare[int])
	case 1:
		laws(c, "float", n, func(i int) float64 { return float64(i)*1.5 - 3 }, cmp.Compare[float64])
	case 2:
		laws(c, "string", n, func(i int) string { return "aaaaaaaaaaaaaaa"[:i] }, cmp.Compare[string])
	case 3:
		b := time.Date(2024, 2, 29, 1, 2, 3, 0, time.UTC)
		laws(c, "time", n, func(i int) time.Time { return b.Add(time.Duration(i) * time.Nanosecond) }, intervals.BasisTime.CmpF)
	}
}

func laws[T any](c *fw.Case, kind string, n int, val func(i int) T, cmpF func(a, b T) int) {
	vs := make([]T, n+1)
	for i := range vs {
		vs[i] = val(i)
	}
	b := intervals.NewBasis(vs[0], vs[n], cmpF)
	idx := func(v T) int {
		for i, o := range vs {
			if cmpF(v, o) == 0 {
				return i
			}
		}
		c.Fatal("foreign-value", "%s: the result has the value %v which is not a border of the arguments", kind, v)
		return -1
	}
	full := pset(1)<<(2*n+1) - 1
	type iv struct {
		i intervals.Interval[T]
		s pset
	}
	var all []iv
	for l := 0; l <= n; l++ {
		for r := l; r <= n; r++ {
			is := []intervals.Interval[T]{b.Open(vs[l], vs[r]), b.Closed(vs[l], vs[r])}
			if l < r {
				is = append(is, b.OpenL(vs[l], vs[r]), b.OpenR(vs[l], vs[r]))
			}
			for _, i := range is {
				all = append(all, iv{i, mk(i, idx)})
			}
		}
	}
	for _, a := range all {
		var s pset
		for _, x := range b.Negate(a.i) {
			xs := mk(x, idx)
			if xs&s != 0 {
				c.Fatal("negate", "%s: the complement of %v consists of overlapping intervals", kind, a.i)
			}
			s |= xs
		}
		c.Eval(1)
		c.Count("negate", 1)
		if s != full&^a.s {
			c.Fatal("negate", "%s: the complement of %v within [%v, %v] is %v", kind, a.i, vs[0], vs[n], b.Negate(a.i))
		}
		for _, o := range all {
			pair(c, kind, b, idx, a.i, o.i, a.s, o.s)
		}
	}
	c.Sample("%s: %d intervals, all pairs", kind, len(all))
}

func pair[T any](c *fw.Case, kind string, b intervals.Basis[T], idx func(T) int, i, j intervals.Interval[T], s, t pset) {
	what := func() string { return fmt.Sprintf("%s: %v and %v", kind, i, j) }
	c.Eval(5)
	r, ok := b.Intersect(i, j)
	c.Count("intersect", 1)
	if ok && mk(r, idx) != s&t || !ok && s&t != 0 {
		c.Fatal("intersect", "%s: the intersection is %v %t", what(), r, ok)
	}
	r, ok = b.Union(i, j)
	c.Count("union", 1)
	if ok && mk(r, idx) != s|t || !ok && s&t != 0 {
		c.Fatal("union", "%s: the union is %v %t", what(), r, ok)
	}
	if s == 0 || t == 0 {
		return
	}
	c.Distinct(kind, s, t)
	if s&t == 0 && (s.sup()+1 == t.inf() || t.sup()+1 == s.inf()) {
		c.Count("touching", 1)
	}
	c.Count("order", 1)
	if got := b.Before(i, j); got != (s.sup() < t.inf()) {
		c.Fatal("before", "%s: Before() is %t", what(), got)
	}
	if got := b.After(i, j); got != (s.inf() > t.sup()) {
		c.Fatal("after", "%s: After() is %t", what(), got)
	}
	if got := b.StartsBefore(i, j); got != (s.inf() < t.inf()) {
		c.Fatal("starts-before", "%s: StartsBefore() is %t", what(), got)
	}
	if got := b.EndsAfter(i, j); got != (s.sup() > t.sup()) {
		c.Fatal("ends-after", "%s: EndsAfter() is %t", what(), got)
	}
}
