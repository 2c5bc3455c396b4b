package store

import (
	"context"
	"errors"
	"fmt"
	"maps"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/jmoiron/sqlx"
	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	serrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/pkg/storage/cache"
	"github.com/solarisdb/solaris/pkg/storage/logfs"
	"github.com/solarisdb/solaris/pkg/storage/postgres"
	"verif/harness/fw"
	"verif/harness/lcond"
	"verif/harness/minisql"
)

func init() {
	fw.Register(&fw.Prop{
		ID: "M04",
		Rule: "sql: random sequences of create, get, update, query (IDs, condition, marked ones, page, limit), delete and chunk infos updates over the SQL storage (with or " +
			"without the cache) against a reference model; the database is an in-memory SQL engine, so the statements are really parsed and run. faults: the same, but the " +
			"connection breaks before a statement or between rows: the request either fails (not as an absence) or its result is whole, the change is applied wholly or not " +
			"at all, and the following reads agree with the database. Non-trivial: the query matches something but not everything, or the connection broke within the " +
			"request; distinct by the operation, the condition shape and the outcome",
		Assumptions: []string{"a real PostgreSQL isn't available: its behaviour is represented by an in-memory engine for the statements which are used (strict about types, quoting, NULLs and precedence; texts are compared bytewise)",
			"conditions refer to the tags every log has, and LIKE patterns have no _ and \\ (the SQL semantics of a missing tag and of these differ from the key-value storage)"},
		MinEvents: []string{"queries", "partial-match", "pages", "faults", "faults-mid-rows", "deleted", "hostile", "refused", "statements"},
		Scens: []fw.Scenario{
			{Name: "sql", Quick: 160, Thorough: 8000, Run: func(c *fw.Case) { m04(c, false) }},
			{Name: "faults", Quick: 160, Thorough: 8000, Run: func(c *fw.Case) { m04(c, true) }},
		},
	})
}

type (
	plog struct {
		id      string
		tags    map[string]string
		created time.Time
		marked  bool
		chunks  map[string]logfs.ChunkInfo
	}
	pstate map[string]plog

	pgModel struct {
		c     *fw.Case
		mdb   *minisql.DB
		base  *postgres.Storage
		st    cache.LogsChunksMetaStorage
		ca    bool
		s     pstate
		dead  []string
		gen   lcond.Gen
		hist  []string
		chaos bool
		// left is the number of database events till the connection breaks. <0 - never
		left    int
		tripped bool
		midRows bool
	}
)

var errConn = errors.New("read tcp: connection reset by peer")

func (s pstate) clone() pstate {
	n := pstate{}
	for k, l := range s {
		l.chunks = maps.Clone(l.chunks)
		n[k] = l
	}
	return n
}

func (s pstate) equal(o pstate) string {
	for k, a := range s {
		b, ok := o[k]
		if !ok {
			return fmt.Sprintf("log %s is missing", k)
		}
		if !maps.Equal(a.tags, b.tags) || a.marked != b.marked || !maps.Equal(a.chunks, b.chunks) {
			return fmt.Sprintf("log %s is %+v, want %+v", k, b, a)
		}
		if !near(a.created, b.created) {
			return fmt.Sprintf("log %s is created at %v, want %v", k, b.created, a.created)
		}
	}
	for k := range o {
		if _, ok := s[k]; !ok {
			return fmt.Sprintf("log %s is unexpected", k)
		}
	}
	return ""
}

func near(a, b time.Time) bool { return a.Sub(b).Abs() <= time.Microsecond }

func (m *pgModel) fault(stmt string, row int) error {
	if m.left < 0 {
		return nil
	}
	if m.left == 0 {
		m.left = -1
		m.tripped, m.midRows = true, row > 0
		return errConn
	}
	m.left--
	return nil
}

func (m *pgModel) arm() {
	m.tripped, m.midRows, m.left = false, false, -1
	if m.chaos && m.c.Rng.Intn(2) == 0 {
		m.left = m.c.Rng.Intn(6)
		if m.c.Rng.Intn(4) == 0 {
			m.left = m.c.Rng.Intn(20)
		}
	}
}

func (m *pgModel) disarm(what string) bool {
	m.left = -1
	if m.tripped {
		m.c.Count("faults", 1)
		m.c.Distinct("fault", what, m.midRows)
		if m.midRows {
			m.c.Count("faults-mid-rows", 1)
		}
	}
	return m.tripped
}

func (m *pgModel) log(f string, a ...any) { m.hist = append(m.hist, fmt.Sprintf(f, a...)) }
func (m *pgModel) tail() string {
	h := m.hist[max(0, len(m.hist)-20):]
	return fmt.Sprintf("cached=%t history:\n%s", m.ca, strings.Join(h, "\n"))
}

func (m *pgModel) ids() []string { return slices.Sorted(maps.Keys(m.s)) }
func (m *pgModel) anyID() string {
	all := m.ids()
	switch k := m.c.Rng.Intn(12); {
	case k == 0 && len(m.dead) > 0:
		return m.dead[m.c.Rng.Intn(len(m.dead))]
	case k == 1 || len(all) == 0:
		return ulid.Make().String()
	case k == 2:
		return pick(m.c, "'; delete from log; --", "' or '1'='1", "x", strings.Repeat("A", 40))
	}
	return all[m.c.Rng.Intn(len(all))]
}

func (m *pgModel) genTags() map[string]string {
	t := map[string]string{}
	for _, n := range m.gen.Tags {
		t[n] = m.gen.Vals[m.c.Rng.Intn(len(m.gen.Vals))]
	}
	if m.c.Rng.Intn(3) == 0 {
		t[pick(m.c, "k\x01", "k'", "k\"", "k\\", "\u2028", "<&>")] = pick(m.c, "\x01\x7f", "a\\b\"c'", "line\nbreak\t", "\a\v\f\b", "😀 \U000e0001", "</script>", "\u00ad\u200b", "$1", "%s%d", "\\u0041")
		m.c.Count("hostile", 1)
	}
	return t
}

// dump reads everything from the storage directly
func (m *pgModel) dump() pstate {
	s := pstate{}
	for _, del := range []bool{false, true} {
		r := storage.QueryLogsRequest{Deleted: del, Limit: 1000}
		for {
			qr, err := m.base.QueryLogs(fw.Ctx(), r)
			if err != nil {
				m.c.Fatal("query-failed", "the logs can't be read: %v\n%s", err, m.tail())
			}
			for _, l := range qr.Logs {
				p := plog{id: l.ID, tags: l.Tags, created: l.CreatedAt.AsTime(), marked: del, chunks: map[string]logfs.ChunkInfo{}}
				cis, err := m.base.GetChunks(fw.Ctx(), l.ID)
				if err != nil {
					m.c.Fatal("query-failed", "the chunks can't be read: %v\n%s", err, m.tail())
				}
				for _, ci := range cis {
					p.chunks[ci.ID] = ci
				}
				s[l.ID] = p
			}
			if r.Page = qr.NextPageID; r.Page == "" {
				break
			}
		}
	}
	return s
}

// settle checks the outcome of a change. want is the error expected if nothing breaks, next is the state after it
func (m *pgModel) settle(what string, err, want error, next pstate) bool {
	tripped := m.disarm(what)
	m.c.Eval(1)
	if tripped && err != nil {
		if want == nil && (errors.Is(err, serrors.ErrNotExist) || errors.Is(err, serrors.ErrInvalid) || errors.Is(err, serrors.ErrExist) || errors.Is(err, serrors.ErrConflict)) {
			m.c.Fatal("fault-misreported", "%s: the connection is broken, but it is reported as %v\n%s", what, err, m.tail())
		}
		now := m.dump()
		d1 := m.s.equal(now)
		if d1 == "" {
			m.views(what)
			return false
		}
		if want == nil {
			if d2 := next.equal(now); d2 == "" {
				m.apply(next)
				m.views(what)
				return false
			}
		}
		m.c.Fatal("partial-change", "%s failed with %v and left a state which is neither the one before it nor the one after: %s\n%s", what, err, d1, m.tail())
	}
	if want == nil && err != nil || want != nil && !errors.Is(err, want) {
		m.c.Fatal("wrong-error", "%s: err=%v, want %v\n%s", what, err, want, m.tail())
	}
	if want != nil {
		m.c.Count("refused", 1)
		if d := m.s.equal(m.dump()); d != "" {
			m.c.Fatal("changed-by-refused", "%s was refused, but %s\n%s", what, d, m.tail())
		}
		return false
	}
	if d := next.equal(m.dump()); d != "" {
		m.c.Fatal("wrong-state", "after %s %s\n%s", what, d, m.tail())
	}
	m.apply(next)
	m.views(what)
	return true
}

func (m *pgModel) apply(next pstate) {
	for id := range m.s {
		if _, ok := next[id]; !ok {
			m.dead = append(m.dead, id)
		}
	}
	m.s = next
}

// views reads some logs via the storage, maybe cached
func (m *pgModel) views(what string) {
	for n := 0; n < 3; n++ {
		id := m.anyID()
		m.get(id, false)
		m.chunks(id, false)
	}
}

func (m *pgModel) get(id string, arm bool) {
	if arm {
		m.arm()
	}
	l, err := m.st.GetLogByID(fw.Ctx(), id)
	p, ok := m.s[id]
	if m.disarm("get") && err != nil {
		if ok && !p.marked && errors.Is(err, serrors.ErrNotExist) {
			m.c.Fatal("fault-misreported", "get: the connection is broken, but it is reported as %v\n%s", err, m.tail())
		}
		return
	}
	m.c.Eval(1)
	if !ok || p.marked {
		if !errors.Is(err, serrors.ErrNotExist) {
			m.c.Fatal("wrong-error", "get %s: err=%v log=%v, but there is no such log\n%s", id, err, l, m.tail())
		}
		return
	}
	if err != nil {
		m.c.Fatal("wrong-error", "get %s: %v\n%s", id, err, m.tail())
	}
	m.checkLog("get", l, p)
}

func (m *pgModel) checkLog(what string, l *solaris.Log, p plog) {
	if l.ID != p.id || !maps.Equal(l.Tags, p.tags) || !near(l.CreatedAt.AsTime(), p.created) {
		m.c.Fatal("wrong-log", "%s returned %v, want %+v\n%s", what, l, p, m.tail())
	}
}

func (m *pgModel) chunks(id string, arm bool) {
	p, ok := m.s[id]
	if ok && p.marked {
		return // they are cleaned up later
	}
	if arm {
		m.arm()
	}
	exp := slices.Sorted(maps.Keys(p.chunks))
	cis, err := m.st.GetChunks(fw.Ctx(), id)
	if m.disarm("chunks") && err != nil {
		return
	}
	m.c.Eval(1)
	if err != nil {
		m.c.Fatal("wrong-error", "get chunks of %s: %v\n%s", id, err, m.tail())
	}
	if len(cis) != len(exp) {
		m.c.Fatal("wrong-chunks", "log %s: %d chunks, want %d\n%s", id, len(cis), len(exp), m.tail())
	}
	for i, ci := range cis {
		if ci != p.chunks[exp[i]] {
			m.c.Fatal("wrong-chunks", "log %s: chunk #%d %+v, want %+v\n%s", id, i, ci, p.chunks[exp[i]], m.tail())
		}
	}
	if arm {
		m.arm()
	}
	lc, err := m.st.GetLastChunk(fw.Ctx(), id)
	if m.disarm("last") && err != nil {
		if len(exp) > 0 && errors.Is(err, serrors.ErrNotExist) {
			m.c.Fatal("fault-misreported", "the last chunk: the connection is broken, but it is reported as %v\n%s", err, m.tail())
		}
		return
	}
	if len(exp) == 0 {
		if err == nil && lc != (logfs.ChunkInfo{}) || err != nil && !errors.Is(err, serrors.ErrNotExist) {
			m.c.Fatal("wrong-last-chunk", "log %s without chunks: the last one is %+v, err=%v\n%s", id, lc, err, m.tail())
		}
		return
	}
	if err != nil || lc != p.chunks[exp[len(exp)-1]] {
		m.c.Fatal("wrong-last-chunk", "log %s: the last chunk is %+v (err=%v), want %+v\n%s", id, lc, err, p.chunks[exp[len(exp)-1]], m.tail())
	}
}

func (m *pgModel) ctx() (context.Context, bool) {
	if m.c.Rng.Intn(25) > 0 {
		return fw.Ctx(), false
	}
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	return ctx, true
}

func (m *pgModel) create() {
	tags := m.genTags()
	next := m.s.clone()
	m.arm()
	b := time.Now()
	l, err := m.st.CreateLog(fw.Ctx(), &solaris.Log{Tags: maps.Clone(tags)})
	e := time.Now()
	m.log("create %q", tags)
	if err == nil {
		m.disarm("create")
		if _, ok := next[l.ID]; ok || l.ID == "" {
			m.c.Fatal("dup-log-id", "the new log ID %q is used", l.ID)
		}
		if ct := l.CreatedAt.AsTime(); ct.Before(b.Add(-time.Microsecond)) || ct.After(e.Add(time.Microsecond)) {
			m.c.Fatal("wrong-times", "the log created within [%v, %v] has creation time %v", b, e, ct)
		}
		next[l.ID] = plog{id: l.ID, tags: tags, created: l.CreatedAt.AsTime(), chunks: map[string]logfs.ChunkInfo{}}
		m.checkLog("create", l, next[l.ID])
	} else if m.tripped { // the ID is not known
		for id, p := range m.dump() {
			if _, ok := next[id]; !ok && maps.Equal(p.tags, tags) {
				next[id] = p
				break
			}
		}
	}
	m.settle("create", err, nil, next)
}

func (m *pgModel) live(id string) bool {
	p, ok := m.s[id]
	return ok && !p.marked
}

func (m *pgModel) update() {
	id := m.anyID()
	if m.c.Rng.Intn(15) == 0 {
		id = ""
	}
	tags := m.genTags()
	next := m.s.clone()
	var want error
	switch {
	case id == "":
		want = serrors.ErrInvalid
	case !m.live(id):
		want = serrors.ErrNotExist
	default:
		p := next[id]
		p.tags = tags
		next[id] = p
	}
	m.arm()
	l, err := m.st.UpdateLog(fw.Ctx(), &solaris.Log{ID: id, Tags: maps.Clone(tags)})
	m.log("update %s %q", id, tags)
	if m.settle("update", err, want, next) {
		m.checkLog("update", l, m.s[id])
	}
}

var pgBad = []string{"tag('a')", "foo = 'a'", "logID", "tag(a = 'b'", "tag('a') = ", "'a' = 'b'", "logID = 1", "logID like ['a']", "logID in 'a'", "tag('a','b') = 'a'", "tag() = 'a'",
	"((logID = 'a')", "logID = 'a' AND", "NOT", "tag = 'a'", "tag('a') = tag", "tag('a') = tag()", "tag('a') = tag('b','c')", "tag('a') > logID", "ctime > '1'", "tag('a') == 'b'",
	"logID = 'a' logID = 'b'", "tag(1) = 'a'", "tag('a') in [1, 2]", "tag(tag('a')) = 'x'", "logID = 'a'; drop table log", "logID = 'a' -- ", "logID = 'a') or (1=1", "1 = 1", "id = 'x'", "true"}

func (m *pgModel) cond() (*lcond.Cond, string) {
	m.gen.IDs = m.ids()
	cond := m.gen.Cond()
	return cond, m.gen.Text(cond)
}

func (m *pgModel) query() {
	r := storage.QueryLogsRequest{Deleted: m.c.Rng.Intn(3) == 0}
	sel := func(p plog) bool { return true }
	shape := ""
	bad := false
	switch k := m.c.Rng.Intn(12); {
	case k < 3:
		for n := 1 + m.c.Rng.Intn(6); n > 0; n-- {
			r.IDs = append(r.IDs, m.anyID())
		}
		if m.c.Rng.Intn(3) == 0 { // must be ignored
			r.Condition = pick(m.c, "tag('a') = 'x'", "logID = 'nope'")
		}
		sel = func(p plog) bool { return slices.Contains(r.IDs, p.id) }
		shape = "ids"
	case k < 4:
		bad = true
		r.Condition = pick(m.c, pgBad...)
	case k < 5:
		r.Condition = pick(m.c, "", " ", "\n\t")
	default:
		var cond *lcond.Cond
		cond, r.Condition = m.cond()
		sel = func(p plog) bool { return cond.Eval(p.id, p.tags) }
		shape = cond.Shape()
	}
	var exp []string
	for _, id := range m.ids() {
		if p := m.s[id]; p.marked == r.Deleted && sel(p) {
			exp = append(exp, id)
		}
	}
	r.Limit = []int64{0, -1, 1, 2, 3, 5, 50, 51, 1000, 1 << 40}[m.c.Rng.Intn(10)]
	lim := int(min(r.Limit, 1000))
	if r.Limit <= 0 {
		lim = 50
	}
	rest := exp
	if m.c.Rng.Intn(4) == 0 {
		r.Page = ulid.Make().String()
		if all := m.ids(); len(all) > 0 {
			r.Page = all[m.c.Rng.Intn(len(all))]
		}
		rest = exp[sort.SearchStrings(exp, r.Page):]
	}
	m.c.Count("queries", 1)
	if len(exp) > 0 && len(exp) < len(m.s) {
		m.c.Count("partial-match", 1)
		m.c.Distinct("q", shape, r.Deleted, lim, len(exp), r.Page != "")
	}
	m.log("query %+v", r)
	for pg := 0; ; pg++ {
		ctx, can := m.ctx()
		m.arm()
		qr, err := m.st.QueryLogs(ctx, r)
		broke := m.disarm("query")
		m.c.Eval(1)
		if bad {
			if !broke && !can && !errors.Is(err, serrors.ErrInvalid) {
				m.c.Fatal("wrong-error", "query with the condition %q: err=%v\n%s", r.Condition, err, m.tail())
			}
			m.c.Count("refused", 1)
			return
		}
		if (broke || can) && err != nil {
			if errors.Is(err, serrors.ErrNotExist) || errors.Is(err, serrors.ErrInvalid) {
				m.c.Fatal("fault-misreported", "query: the connection is broken, but it is reported as %v\n%s", err, m.tail())
			}
			return
		}
		if err != nil {
			m.c.Fatal("query-failed", "query %+v: %v\n%s", r, err, m.tail())
		}
		if qr.Total != int64(len(exp)) {
			m.c.Fatal("wrong-total", "query %+v: total=%d, but %d logs match (broken=%t)\n%s", r, qr.Total, len(exp), broke, m.tail())
		}
		want := rest[:min(lim, len(rest))]
		got := make([]string, len(qr.Logs))
		for i, l := range qr.Logs {
			got[i] = l.ID
			if i < len(want) && want[i] == l.ID {
				m.checkLog("query", l, m.s[l.ID])
			}
		}
		if !slices.Equal(got, want) {
			m.c.Fatal("wrong-logs", "query %+v page %d returned %d logs %v, want %d %v (broken=%t)\n%s", r, pg, len(got), ssh(got), len(want), ssh(want), broke, m.tail())
		}
		rest = rest[len(want):]
		if (qr.NextPageID != "") != (len(rest) > 0) {
			m.c.Fatal("wrong-next", "query %+v: nextPageID=%q, but %d more logs left\n%s", r, qr.NextPageID, len(rest), m.tail())
		}
		if len(rest) == 0 {
			return
		}
		m.c.Count("pages", 1)
		r.Page = qr.NextPageID
	}
}

func (m *pgModel) del() {
	r := storage.DeleteLogsRequest{MarkOnly: m.c.Rng.Intn(2) == 0}
	sel := func(p plog) bool { return false }
	var want error
	switch k := m.c.Rng.Intn(12); {
	case k < 6:
		for n := 1 + m.c.Rng.Intn(3); n > 0; n-- {
			r.IDs = append(r.IDs, m.anyID())
		}
		sel = func(p plog) bool { return slices.Contains(r.IDs, p.id) }
	case k < 7:
		r.Condition = pick(m.c, pgBad...)
		want = serrors.ErrInvalid
	case k < 8:
		r.Condition = pick(m.c, "", " ", "\n\t")
	default:
		var cond *lcond.Cond
		cond, r.Condition = m.cond()
		if m.c.Rng.Intn(3) > 0 && len(m.gen.IDs) > 0 { // a narrow one
			cond = &lcond.Cond{Kind: "and", Subs: []*lcond.Cond{cond, {Kind: "in", L: lcond.Val{Kind: "id"}, Arr: []string{m.gen.IDs[0], m.gen.IDs[len(m.gen.IDs)/2], m.gen.IDs[len(m.gen.IDs)-1]}}}}
			r.Condition = m.gen.Text(cond)
		}
		sel = func(p plog) bool { return cond.Eval(p.id, p.tags) }
	}
	next := m.s.clone()
	var exp []string
	for _, id := range m.ids() {
		p := m.s[id]
		if !sel(p) || r.MarkOnly && p.marked {
			continue
		}
		exp = append(exp, id)
		if r.MarkOnly {
			p.marked = true
			next[id] = p
		} else {
			delete(next, id)
		}
	}
	m.arm()
	dr, err := m.st.DeleteLogs(fw.Ctx(), r)
	m.log("delete %+v", r)
	if m.settle("delete", err, want, next) {
		got := slices.Clone(dr.DeletedIDs)
		slices.Sort(got)
		if !slices.Equal(got, exp) {
			m.c.Fatal("wrong-deleted", "delete %+v reported %v, want %v\n%s", r, ssh(got), ssh(exp), m.tail())
		}
		m.c.Count("deleted", len(exp))
		m.c.Distinct("d", r.MarkOnly, len(r.IDs), len(exp))
	} else if err != nil && want == nil && len(r.IDs) > 0 && m.c.Rng.Intn(2) == 0 {
		// the client repeats the request
		_, err = m.st.DeleteLogs(fw.Ctx(), r)
		m.settle("repeated delete", err, nil, next)
	}
}

func (m *pgModel) upsert() {
	id := m.anyID()
	next := m.s.clone()
	p, ok := m.s[id]
	if ok && p.marked {
		return
	}
	var cis []logfs.ChunkInfo
	var want error
	used := map[string]bool{}
	for n := m.c.Rng.Intn(4); n > 0; n-- {
		ci := logfs.ChunkInfo{ID: ulid.Make().String(), Min: ulid.Make(), Max: ulid.Make(), RecordsCount: m.c.Rng.Intn(100)}
		if len(p.chunks) > 0 && m.c.Rng.Intn(2) == 0 {
			ks := slices.Sorted(maps.Keys(p.chunks))
			ci.ID = ks[m.c.Rng.Intn(len(ks))]
		}
		if m.c.Rng.Intn(15) == 0 {
			ci.ID = ""
			want = serrors.ErrInvalid
		}
		if used[ci.ID] {
			continue
		}
		used[ci.ID] = true
		cis = append(cis, ci)
	}
	if ok {
		for _, ci := range cis {
			next[id].chunks[ci.ID] = ci
		}
	} else if len(cis) > 0 && want == nil {
		want = serrors.ErrConflict
		if len(id) > 32 {
			return
		}
	}
	m.arm()
	err := m.st.UpsertChunkInfos(fw.Ctx(), id, slices.Clone(cis))
	m.log("upsert %s %+v", id, cis)
	m.settle("upsert", err, want, next)
}

func m04(c *fw.Case, chaos bool) {
	m := &pgModel{c: c, mdb: minisql.NewDB(), s: pstate{}, chaos: chaos, ca: c.Rng.Intn(2) == 0, left: -1}
	m.mdb.Fault = m.fault
	m.gen = lcond.Gen{R: c.Rng, Tags: []string{"a", "b", "c d", "名", "o'k"}, Depth: 1 + c.Rng.Intn(4),
		Vals: []string{"", "x", "xy", "xyx", "yx", "X", "aa%bb", "ab", "a'b", "a\"b", "0", "10", "9", "ünï", "[x]", "x y", "not", "tag(", "%", "' or '1'='1", "'; drop table log; --", "') or ('a'='a",
			"''", "'", "$1", "--", "/*", "*/", ":x", "?", "NULL", "null", "true", "E'", "x' || 'y"}}
	sdb := m.mdb.Open()
	defer sdb.Close()
	m.base = postgres.NewStorage(&postgres.Db{DB: sqlx.NewDb(sdb, "postgres")})
	m.st = m.base
	if m.ca {
		m.st = cache.NewCachedStorage(m.base)
	}
	for n := 50 + c.Rng.Intn(60); n > 0; n-- {
		switch k := c.Rng.Intn(100); {
		case k < 15 || len(m.s) < 3:
			m.create()
		case k < 25:
			m.get(m.anyID(), true)
		case k < 40:
			m.update()
		case k < 70:
			m.query()
		case k < 80:
			m.del()
		case k < 92:
			m.upsert()
		default:
			m.chunks(m.anyID(), true)
		}
	}
	st, _ := m.mdb.Counts()
	c.Count("statements", st)
	c.Sample("%s", strings.Join(m.hist[:min(6, len(m.hist))], "; "))
}
