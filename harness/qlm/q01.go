// Package qlm contains the monitors of the query language properties
package qlm

import (
	"errors"
	"strings"
	"time"

	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	serrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/pkg/intervals"
	"github.com/solarisdb/solaris/pkg/ql"
	"google.golang.org/protobuf/types/known/timestamppb"
	"verif/harness/fw"
	"verif/harness/lcond"
	"verif/harness/minisql"
	"verif/harness/tcond"
)

func init() {
	fw.Register(&fw.Prop{
		ID: "Q01",
		Rule: "logs: random conditions over the log ID and tags (all comparisons, IN, LIKE, NOT, AND, OR, nesting, spacing, quoting and letter case of the keywords) are evaluated over " +
			"30 random logs and compared with a reference evaluator of the AST the text was printed from. records: the same for the creation time conditions the evaluator " +
			"supports. malformed: broken conditions are refused as invalid. Non-trivial: the condition is true for some of the logs only; distinct by the condition shape and number of the matches",
		MinEvents: []string{"conditions", "partial", "records-conds", "refused"},
		Scens: []fw.Scenario{
			{Name: "logs", Quick: 6000, Thorough: 400000, Run: q01Logs},
			{Name: "records", Quick: 1500, Thorough: 60000, Run: q01Records},
			{Name: "malformed", Quick: 300, Thorough: 3000, Run: q01Malformed},
		},
	})
	fw.Register(&fw.Prop{
		ID: "Q02",
		Rule: "build: random creation time conditions (all comparisons, NOT, AND, OR, nesting, instants on and around the interesting points, out of range ones) are turned to the " +
			"intervals; for the points on, just before and just after every literal and interval border, a point is in some interval iff the reference evaluator says the " +
			"condition holds; the intervals are sorted and don't overlap. Non-trivial: some points match and some don't; distinct by the shape and number of the intervals",
		MinEvents: []string{"conditions", "partial", "points", "empty", "all"},
		Scens: []fw.Scenario{
			{Name: "build", Quick: 8000, Thorough: 500000, Run: q02Build},
		},
	})
	fw.Register(&fw.Prop{
		ID: "Q04",
		Rule: "sql: random logs conditions (with hostile constants: quotes, SQL fragments, comments) are translated to SQL, which is parsed and evaluated with the SQL semantics over 20 " +
			"random logs (having all the tags) and compared with the reference evaluator. malformed: broken conditions are refused as invalid. Non-trivial: " +
			"true for some of the logs only; distinct by the condition shape and number of the matches",
		Assumptions: []string{"the SQL is evaluated by an in-memory engine of the PostgreSQL expression grammar, texts are compared bytewise", "logs have all the tags mentioned; no _ and \\ in the LIKE patterns"},
		MinEvents:   []string{"conditions", "partial", "hostile", "refused"},
		Scens: []fw.Scenario{
			{Name: "sql", Quick: 5000, Thorough: 300000, Run: q04Sql},
			{Name: "malformed", Quick: 300, Thorough: 3000, Run: q04Malformed},
		},
	})
}

func pick[T any](c *fw.Case, vs ...T) T { return vs[c.Rng.Intn(len(vs))] }

var vals = []string{"", "x", "xy", "xyx", "yx", "X", "aa%bb", "ab", "a'b", "a\"b", "0", "10", "9", "ünï", "[x]", "x y", "not", "tag(", "%", "AND", "日本語", "xxxxxxxxxxxxxxxxxxxxxxxx", "xyxyxyxyxyx", " x", "x "}

func logs(c *fw.Case, g *lcond.Gen, n int, all bool) []*solaris.Log {
	var res []*solaris.Log
	for i := 0; i < n; i++ {
		l := &solaris.Log{ID: ulid.Make().String()}
		for _, t := range g.Tags {
			if all || c.Rng.Intn(4) > 0 {
				if l.Tags == nil {
					l.Tags = map[string]string{}
				}
				l.Tags[t] = pick(c, g.Vals...)
			}
		}
		g.IDs = append(g.IDs, l.ID)
		res = append(res, l)
	}
	return res
}

func q01Logs(c *fw.Case) {
	g := lcond.Gen{R: c.Rng, Under: true, Tags: []string{"a", "b", "c d", "名", ""}, Vals: vals, Depth: c.Rng.Intn(6)}
	ls := logs(c, &g, 30, false)
	cond := g.Cond()
	text := g.Text(cond)
	e, err := ql.Parse(text)
	if err != nil {
		c.Fatal("refused", "a correct condition %q is refused: %v", text, err)
	}
	f, err := ql.BuildExprF(e, ql.LogsCondValueDialect)
	if err != nil {
		c.Fatal("refused", "a correct condition %q is refused: %v", text, err)
	}
	n := 0
	for k := 0; k < 2; k++ { // the function must give the same answer again
		for _, l := range ls {
			want := cond.Eval(l.ID, l.Tags)
			if got := f(l); got != want {
				c.Fatal("wrong-answer", "the condition %q over the log ID=%s tags=%q is %t, want %t", text, l.ID, l.Tags, got, want)
			}
			if want && k == 0 {
				n++
			}
		}
	}
	c.Eval(len(ls) * 2)
	c.Count("conditions", 1)
	if n > 0 && n < len(ls) {
		c.Count("partial", 1)
		c.Distinct(cond.Shape(), n)
	}
	c.Sample("%s -> %d of %d", text, n, len(ls))
}

func q01Records(c *fw.Case) {
	now := time.Now().Truncate(time.Millisecond)
	pts := []time.Time{now, now.Add(-time.Hour), now.Add(time.Millisecond)}
	cond := tcond.Gen(c.Rng, pts, c.Rng.Intn(4))
	text := cond.Text(c.Rng)
	e, err := ql.Parse(text)
	if err != nil {
		c.Fatal("refused", "a correct condition %q is refused: %v", text, err)
	}
	f, err := ql.BuildExprF(e, ql.RecordsCondValueDialect)
	c.Count("records-conds", 1)
	c.Eval(1)
	if err != nil {
		if !errors.Is(err, serrors.ErrInvalid) {
			c.Fatal("wrong-error", "the condition %q: %v", text, err)
		}
		if only(cond, "<", ">") {
			c.Fatal("refused", "a correct condition %q is refused: %v", text, err)
		}
		c.Count("unsupported", 1)
		return
	}
	n := 0
	for _, p := range points(c, cond, pts) {
		want := cond.Eval(p)
		if got := f(&solaris.Record{CreatedAt: timestamppb.New(p)}); got != want {
			c.Fatal("wrong-answer", "the condition %q over the record created at %v is %t, want %t", text, p, got, want)
		}
		if want {
			n++
		}
		c.Eval(1)
	}
	c.Distinct("rec", shape(cond), n)
}

func only(t *tcond.Cond, ops ...string) bool {
	if t.Kind == "cmp" {
		for _, o := range ops {
			if t.Op == o {
				return true
			}
		}
		return false
	}
	for _, s := range t.Subs {
		if !only(s, ops...) {
			return false
		}
	}
	return true
}

func shape(t *tcond.Cond) string {
	if t.Kind == "cmp" {
		return t.Op
	}
	var ps []string
	for _, s := range t.Subs {
		ps = append(ps, shape(s))
	}
	return t.Kind + "(" + strings.Join(ps, " ") + ")"
}

// points returns the points to be checked: around the literals and pts
func points(c *fw.Case, t *tcond.Cond, pts []time.Time) []time.Time {
	res := append([]time.Time(nil), pts...)
	var walk func(t *tcond.Cond)
	walk = func(t *tcond.Cond) {
		if t.Kind == "cmp" {
			res = append(res, t.Val)
		}
		for _, s := range t.Subs {
			walk(s)
		}
	}
	walk(t)
	for _, p := range append([]time.Time(nil), res...) {
		res = append(res, p.Add(1), p.Add(-1), p.Add(time.Millisecond), p.Add(-time.Millisecond), p.Add(time.Duration(c.Rng.Int63n(int64(time.Hour)))-30*time.Minute))
	}
	return res
}

var badConds = []string{"tag('a')", "foo = 'a'", "logID", "tag(a = 'b'", "tag('a') = ", "'a' = 'b'", "logID = 1", "logID like ['a']", "logID in 'a'", "tag('a','b') = 'a'", "tag() = 'a'",
	"((logID = 'a')", "logID = 'a' AND", "NOT", "tag = 'a'", "tag('a') = tag", "tag('a') = tag()", "tag('a') = tag('b','c')", "tag('a') > logID", "ctime > '1'", "tag('a') == 'b'",
	"logID = 'a' logID = 'b'", "tag(1) = 'a'", "tag(tag('a')) = 'x'", "logID = 'a'; drop table log", "logID = 'a' -- ", "logID = 'a') or (1=1", "1 = 1", "id = 'x'", "true", "AND", "()", "(", ")",
	"logID = 'a' OR OR logID = 'b'", "logID > 'a' > 'b'", "logID NOT = 'a'", "NOT NOT logID", "logID in [", "logID in ['a',]", "logID in [logID]", "logID like tag('a')", "logID is null", "tag['a'] = 'b'",
	"logID = 'a", "logID = \"a", "logID = 'a\"", "logID =! 'a'", "logID <> 'a'", "logID between 'a' and 'b'", "logID = a", "logID = 'a' and (logID = 'b'", "like", "in", "logID = 'a' or", "\x00", "logID = 'a' \xff", "日本 = 'a'"}

func variant(c *fw.Case, s string) string {
	ok := pick(c, "logID = 'z'", "tag('q') IN ['1', '2']", "NOT (tag('x') LIKE 'a%')")
	switch c.Rng.Intn(5) {
	case 0:
		return ok + " AND " + s
	case 1:
		return ok + " OR " + s
	case 2:
		return s + " OR " + ok
	case 3:
		return "(" + s + ") AND " + ok
	}
	return s
}

// closers: a variant may repair the condition
func broken(s string) bool { return strings.Count(s, "(") == strings.Count(s, ")") }

func q01Malformed(c *fw.Case) {
	s := badConds[c.Idx%len(badConds)]
	text := s
	if broken(s) && c.Idx >= len(badConds) {
		text = variant(c, s)
	}
	c.Eval(1)
	e, err := ql.Parse(text)
	if err == nil {
		_, err = ql.BuildExprF(e, ql.LogsCondValueDialect)
	}
	if err == nil {
		c.Fatal("accepted", "the malformed condition %q is accepted", text)
	}
	if !errors.Is(err, serrors.ErrInvalid) {
		c.Fatal("wrong-error", "the malformed condition %q is refused with %v", text, err)
	}
	c.Count("refused", 1)
	c.Distinct(text)
}

// ---------------------------------------------------------------------------- Q02

func q02Build(c *fw.Case) {
	now := time.Now()
	pts := []time.Time{now, now.Truncate(time.Millisecond), intervals.BasisTime.Min, intervals.BasisTime.Max, now.Add(-100 * time.Hour)}
	cond := tcond.Gen(c.Rng, pts, c.Rng.Intn(6))
	text := cond.Text(c.Rng)
	e, err := ql.Parse(text)
	if err != nil {
		c.Fatal("refused", "a correct condition %q is refused: %v", text, err)
	}
	ib := ql.NewParamIntervalBuilder(intervals.BasisTime, ql.RecordsCondValueDialect, "ctime", ql.OpsAll)
	is, err := ib.Build(e)
	if err != nil {
		c.Fatal("refused", "a correct condition %q is refused: %v", text, err)
	}
	for _, i := range is {
		pts = append(pts, i.L, i.R)
	}
	for k := 1; k < len(is); k++ {
		a, b := is[k-1], is[k]
		if a.L.After(b.L) || a.R.After(b.L) || a.R.Equal(b.L) && a.RIn && b.LIn {
			c.Fatal("overlap", "the condition %q: the intervals are not sorted or overlap: %v", text, is)
		}
	}
	in, out := 0, 0
	for _, p := range points(c, cond, pts) {
		if p.Before(intervals.BasisTime.Min) || p.After(intervals.BasisTime.Max) {
			continue
		}
		want := cond.Eval(p)
		got := is == nil
		for _, i := range is {
			got = got || (p.After(i.L) || i.LIn && p.Equal(i.L)) && (p.Before(i.R) || i.RIn && p.Equal(i.R))
		}
		if got != want {
			c.Fatal("wrong-intervals", "the condition %q is %t at %v, but its intervals %v say %t", text, want, p, is, got)
		}
		if got {
			in++
		} else {
			out++
		}
	}
	c.Eval(in + out)
	c.Count("conditions", 1)
	c.Count("points", in+out)
	switch {
	case in == 0:
		c.Count("empty", 1)
	case out == 0:
		c.Count("all", 1)
	default:
		c.Count("partial", 1)
	}
	c.Distinct(shape(cond), len(is))
	c.Sample("%s -> %d intervals, %d points in, %d out", text, len(is), in, out)
}

// ---------------------------------------------------------------------------- Q04

var hostile = []string{"' or '1'='1", "'; drop table log; --", "') or ('a'='a", "''", "'", "$1", "--", "/*", "*/", ":x", "?", "NULL", "null", "true", "E'", "x' || 'y", "''''", "$$", "$a$", ";", "') union select * from log --", "%' or 'a' like '%", "U&'"}

func q04Sql(c *fw.Case) {
	g := lcond.Gen{R: c.Rng, Tags: []string{"a", "b", "c d", "名", "o'k", "') = '' or ('"}, Vals: append(append([]string{}, vals...), hostile...), Depth: c.Rng.Intn(6)}
	ls := logs(c, &g, 20, true)
	cond := g.Cond()
	text := g.Text(cond)
	var sb strings.Builder
	pre := pick(c, "", "id = 'x' or ")
	sb.WriteString(pre)
	if err := ql.NewTranslator(ql.LogsCondTranslateDialect).Translate(&sb, text); err != nil {
		c.Fatal("refused", "a correct condition %q is refused: %v", text, err)
	}
	if !strings.HasPrefix(sb.String(), pre) {
		c.Fatal("lost-prefix", "the text written before the translation is lost: %q", sb.String())
	}
	sql := sb.String()[len(pre):]
	w, err := minisql.ParseWhere(sql)
	if err != nil {
		c.Fatal("bad-sql", "the condition %q is translated to a wrong SQL %q: %v", text, sql, err)
	}
	n := 0
	for _, l := range ls {
		want := cond.Eval(l.ID, l.Tags)
		got, err := w.LogRow(l.ID, l.Tags)
		if err != nil {
			c.Fatal("bad-sql", "the condition %q is translated to a wrong SQL %q: %v", text, sql, err)
		}
		if (got == 1) != want {
			c.Fatal("wrong-answer", "the condition %q over the log ID=%s tags=%q must be %t, but its SQL %q is %d", text, l.ID, l.Tags, want, sql, got)
		}
		if want {
			n++
		}
	}
	c.Eval(len(ls))
	c.Count("conditions", 1)
	for _, h := range hostile {
		if strings.Contains(text, h) {
			c.Count("hostile", 1)
			break
		}
	}
	if n > 0 && n < len(ls) {
		c.Count("partial", 1)
		c.Distinct(cond.Shape(), n)
	}
	c.Sample("%s -> %s", text, sql)
}

func q04Malformed(c *fw.Case) {
	s := badConds[c.Idx%len(badConds)]
	text := s
	if broken(s) && c.Idx >= len(badConds) {
		text = variant(c, s)
	}
	c.Eval(1)
	var sb strings.Builder
	err := ql.NewTranslator(ql.LogsCondTranslateDialect).Translate(&sb, text)
	if err == nil {
		c.Fatal("accepted", "the malformed condition %q is accepted and translated to %q", text, sb.String())
	}
	if !errors.Is(err, serrors.ErrInvalid) {
		c.Fatal("wrong-error", "the malformed condition %q is refused with %v", text, err)
	}
	c.Count("refused", 1)
	c.Distinct(text)
}
