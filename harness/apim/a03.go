package apim

import (
	"fmt"
	"maps"
	"math/rand"
	"reflect"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/oklog/ulid/v2"
	"verif/harness/fw"
	"verif/harness/lcond"
	"verif/harness/tcond"
)

func init() {
	fw.Register(&fw.Prop{
		ID: "A03",
		Rule: "same: random histories of creating, tagging, deleting logs and appending records through the gRPC and the REST servers in turns; every query (logs and records, by IDs or conditions, any " +
			"page, limit, direction) is asked both ways and the answers must be the same, be what the reference model selects, and the REST one must validate against the published schema. " +
			"Non-trivial: the query matches something but not everything; distinct by the query shape and the outcome",
		MinEvents: []string{"log-queries", "rec-queries", "partial", "pages", "writes-gRPC", "writes-REST", "refused"},
		Scens: []fw.Scenario{
			{Name: "same", Quick: 64, Thorough: 3000, Run: a03Same},
		},
	})
}

type (
	mlog struct {
		id   string
		tags map[string]string
		recs []string // payloads of records in the order of appending
		ids  []string // the IDs, known by the last full read
	}

	amodel struct {
		c    *fw.Case
		r    *rand.Rand
		cls  []client
		logs map[string]*mlog
		gone []string
		gen  lcond.Gen
		big  int
		full bool
	}
)

// genTags makes the tags. The absent tag is not an empty one for the SQL metadata storage (see M04), so all are there for it
func genTags(r *rand.Rand, full bool) map[string]string {
	m := map[string]string{}
	if full {
		for _, t := range []string{"a", "b", "c d", "名", "o'k"} {
			m[t] = pick(r, "", "x", "xy", "9")
		}
	}
	for n := r.Intn(4); n > 0; n-- {
		m[pick(r, "a", "b", "c d", "名", "o'k")] = pick(r, "", "x", "xy", "yx", "a'b", "ünï", "<&>", "\u2028", "x y", "10", "9")
	}
	return m
}

func newModel(c *fw.Case, s *srv) *amodel {
	m := &amodel{c: c, r: c.Rng, cls: []client{s.grpc(), s.rest()}, logs: map[string]*mlog{}, big: int(s.o.chunk.MaxChunkSize), full: s.o.pg != nil}
	m.gen = lcond.Gen{R: c.Rng, Tags: []string{"a", "b", "c d", "名", "o'k"}, Depth: 1 + c.Rng.Intn(3), NoLike: s.o.pg != nil, NoEmptyIn: true,
		Vals: []string{"", "x", "xy", "yx", "a'b", "ünï", "<&>", "x y", "10", "9"}}
	return m
}

func (m *amodel) cl() client {
	cl := m.cls[m.r.Intn(len(m.cls))]
	m.c.Count("writes-"+cl.name(), 1)
	return cl
}

func (m *amodel) ids() []string { return slices.Sorted(maps.Keys(m.logs)) }

func (m *amodel) anyID() string {
	ids := m.ids()
	if len(ids) == 0 || m.r.Intn(12) == 0 {
		return pick(m.r, append(slices.Clone(m.gone), ulid.Make().String(), "nolog", "a b", "../x")...)
	}
	return ids[m.r.Intn(len(ids))]
}

// wrote checks the outcome of a write
func (m *amodel) wrote(what string, cl client, kind, want string) bool {
	m.c.Eval(1)
	if kind != want {
		m.c.Fail("outcome:"+what, "%s %s: the outcome is %q, expected %q", cl.name(), what, kind, want)
		return false
	}
	if want != "" {
		m.c.Count("refused", 1)
	}
	return want == ""
}

func (m *amodel) exist(id string) string {
	if m.logs[id] == nil {
		return "notexist"
	}
	return ""
}

func (m *amodel) create() {
	tags := genTags(m.r, m.full)
	cl := m.cl()
	t0 := time.Now()
	l, k := cl.createLog(maps.Clone(tags))
	if !m.wrote("create", cl, k, "") {
		return
	}
	if m.logs[l.ID] != nil || !maps.Equal(l.Tags, tags) || len(l.ID) == 0 {
		m.c.Fail("create-result", "%s: created the log %+v with the tags %v", cl.name(), l, tags)
	}
	if l.Created.Before(t0.Add(-time.Minute)) || l.Created.After(time.Now().Add(time.Minute)) {
		m.c.Fail("create-time", "%s: the log is created at %v, the time is %v", cl.name(), l.Created, t0)
	}
	m.logs[l.ID] = &mlog{id: l.ID, tags: tags}
}

func (m *amodel) update() {
	tags, id := genTags(m.r, m.full), m.anyID()
	cl := m.cl()
	l, k := cl.updateLog(id, maps.Clone(tags))
	if !m.wrote("update", cl, k, m.exist(id)) {
		return
	}
	if l.ID != id || !maps.Equal(l.Tags, tags) {
		m.c.Fail("update-result", "%s: updated the log %+v with the tags %v", cl.name(), l, tags)
	}
	m.logs[id].tags = tags
}

func (m *amodel) append() {
	id := m.anyID()
	var pls []string
	for n := 1 + m.r.Intn(8); n > 0; n-- {
		b := make([]byte, pick(m.r, 0, 1, m.r.Intn(30), m.r.Intn(1500)))
		m.r.Read(b)
		pls = append(pls, string(b))
	}
	cl := m.cl()
	n, k := cl.appendRecs(id, pls)
	if !m.wrote("append", cl, k, m.exist(id)) {
		return
	}
	if n != len(pls) {
		m.c.Fail("append-result", "%s: %d of %d records are added", cl.name(), n, len(pls))
		return
	}
	m.logs[id].recs = append(m.logs[id].recs, pls...)
}

func (m *amodel) del() {
	var ids []string
	for _, id := range m.ids() {
		if m.r.Intn(6) == 0 {
			ids = append(ids, id)
		}
	}
	cond := "logID in ['nosuch'"
	for _, id := range ids {
		cond += ", '" + id + "'"
	}
	cond += "]"
	cl := m.cl()
	n, k := cl.deleteLogs(cond)
	if !m.wrote("delete", cl, k, "") {
		return
	}
	if n != len(ids) {
		m.c.Fail("delete-result", "%s: deleted %d logs by %s, expected %d", cl.name(), n, cond, len(ids))
	}
	for _, id := range ids {
		delete(m.logs, id)
		m.gone = append(m.gone, id)
	}
}

// same asks the question both ways
func same[T any](m *amodel, what string, f func(cl client) (T, string)) (T, bool) {
	a, ka := f(m.cls[0])
	b, kb := f(m.cls[1])
	m.c.Eval(1)
	if ka != kb {
		m.c.Fail("differ-outcome:"+strings.Fields(what)[0], "%s: the outcome over gRPC is %q, over REST %q", what, ka, kb)
		return a, false
	}
	if ka != "" {
		m.c.Count("refused", 1)
		m.c.Fail("query-refused:"+strings.Fields(what)[0], "%s is refused: %s", what, ka)
		return a, false
	}
	if !reflect.DeepEqual(norm(a), norm(b)) {
		m.c.Fail("differ:"+strings.Fields(what)[0], "%s: over gRPC it is %.1500s, over REST %.1500s", what, fmt.Sprintf("%+v", a), fmt.Sprintf("%+v", b))
		return a, false
	}
	return a, true
}

func norm(v any) any {
	switch p := v.(type) {
	case logsPage:
		p.Logs = slices.Clone(p.Logs)
		for i := range p.Logs {
			p.Logs[i].Created, p.Logs[i].Updated = p.Logs[i].Created.UTC().Round(0), p.Logs[i].Updated.UTC().Round(0)
		}
		return p
	case recsPage:
		p.Recs = slices.Clone(p.Recs)
		for i := range p.Recs {
			p.Recs[i].Created = p.Recs[i].Created.UTC().Round(0)
		}
		return p
	}
	return v
}

func (m *amodel) limit() *int {
	switch m.r.Intn(12) {
	case 0, 5:
		return nil
	case 3:
		return ptr(0)
	case 1:
		return ptr(1)
	case 2:
		return ptr(1000)
	}
	return ptr(1 + m.r.Intn(12))
}

func ptr[T any](v T) *T { return &v }

func (m *amodel) queryLogs() {
	cond, text := (*lcond.Cond)(nil), ""
	if m.r.Intn(4) > 0 {
		m.gen.IDs = m.ids()
		cond = m.gen.Cond()
		text = m.gen.Text(cond)
	}
	var want []string
	for _, id := range m.ids() {
		if cond == nil || cond.Eval(id, m.logs[id].tags) {
			want = append(want, id)
		}
	}
	total := len(want)
	page, lim := "", m.limit()
	n := 50
	if lim != nil && *lim > 0 {
		n = *lim
	}
	m.c.Count("log-queries", 1)
	if total > 0 && total < len(m.logs) {
		m.c.Count("partial", 1)
		m.c.Distinct("logs", text, total)
	}
	for i := 0; i < 100; i++ {
		p, ok := same(m, fmt.Sprintf("logs %q page=%q limit=%d", text, page, n), func(cl client) (logsPage, string) { return cl.queryLogs(text, page, lim) })
		if !ok {
			return
		}
		exp := want[:min(n, len(want))]
		want = want[len(exp):]
		var got []string
		for _, l := range p.Logs {
			got = append(got, l.ID)
			if ml := m.logs[l.ID]; ml != nil && !maps.Equal(ml.tags, l.Tags) {
				m.c.Fail("log-tags", "the log %s has the tags %v, expected %v", l.ID, l.Tags, ml.tags)
			}
		}
		if !slices.Equal(got, exp) {
			m.c.Fail("logs-selected", "logs %q page=%q limit=%d: got %v, expected %v", text, page, n, got, exp)
			return
		}
		if i == 0 && p.Total != total {
			m.c.Fail("logs-total", "logs %q: the total is %d, expected %d", text, p.Total, total)
		}
		if (p.Next != "") != (len(want) > 0) {
			m.c.Fail("logs-next", "logs %q page=%q limit=%d: the next page ID is %q, %d logs are left", text, page, n, p.Next, len(want))
			return
		}
		if page = p.Next; page == "" {
			return
		}
		m.c.Count("pages", 1)
	}
}

func (m *amodel) queryRecs() {
	q := recQuery{Desc: m.r.Intn(2) == 0, Limit: m.limit()}
	sel := m.ids()
	switch m.r.Intn(4) {
	case 0:
		m.gen.IDs = m.ids()
		cond := m.gen.Cond()
		q.LogsCond = m.gen.Text(cond)
		sel = slices.DeleteFunc(sel, func(id string) bool { return !cond.Eval(id, m.logs[id].tags) })
	case 1, 2:
		m.r.Shuffle(len(sel), func(i, j int) { sel[i], sel[j] = sel[j], sel[i] })
		sel = sel[:m.r.Intn(len(sel)+1)]
		q.IDs = sel
		if len(sel) == 0 {
			sel = m.ids() // no IDs is the same as no condition
		}
		if m.r.Intn(3) == 0 {
			q.LogsCond = "logID = 'ignored'"
			if len(q.IDs) == 0 {
				sel = nil
			}
		}
	}
	type mrec struct{ id, log, pl string }
	var all []mrec
	for _, id := range sel {
		if !m.learn(m.logs[id]) {
			return
		}
		for i, rid := range m.logs[id].ids {
			all = append(all, mrec{rid, id, m.logs[id].recs[i]})
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].id < all[j].id })
	n0 := len(all)
	var cond *tcond.Cond
	if m.r.Intn(2) == 0 {
		var pts []time.Time
		for _, r := range all {
			pts = append(pts, ulid.Time(ulid.MustParse(r.id).Time()))
		}
		cond = tcond.Gen(m.r, pts, m.r.Intn(3))
		q.Cond = cond.Text(m.r)
		all = slices.DeleteFunc(all, func(r mrec) bool { return !cond.Eval(ulid.Time(ulid.MustParse(r.id).Time())) })
	}
	if q.Desc {
		slices.Reverse(all)
	}
	n := 50
	if q.Limit != nil {
		n = *q.Limit
	}
	m.c.Count("rec-queries", 1)
	if len(all) > 0 && len(all) < n0 {
		m.c.Count("partial", 1)
		m.c.Distinct("recs", len(sel), q.Cond, q.Desc, len(all))
	}
	for i := 0; i < 200; i++ {
		p, ok := same(m, fmt.Sprintf("records %+v limit=%d", q, n), func(cl client) (recsPage, string) { return cl.queryRecs(q) })
		if !ok {
			return
		}
		if len(p.Recs) > n || len(p.Recs) > len(all) || len(p.Recs) == 0 && len(all) > 0 && n > 0 {
			m.c.Fail("recs-selected", "records %+v limit=%d: got %d records, %d are left", q, n, len(p.Recs), len(all))
			return
		}
		if i == 0 && p.Total != len(all) {
			m.c.Fail("recs-total", "records %+v: the total is %d, expected %d", q, p.Total, len(all))
		}
		if n == 0 { // just the total is asked
			m.c.Count("no-records", 1)
			return
		}
		for j, r := range p.Recs {
			if w := all[j]; r.ID != w.id || r.Log != w.log || r.Payload != w.pl || !r.Created.Equal(ulid.Time(ulid.MustParse(w.id).Time())) {
				m.c.Fail("recs-content", "records %+v: the record %d is {%s %s %d bytes %v}, expected {%s %s %d bytes}", q, j, r.ID, r.Log, len(r.Payload), r.Created, w.id, w.log, len(w.pl))
				return
			}
		}
		all = all[len(p.Recs):]
		if p.Next == "" && len(all) > 0 { // the last page may be empty
			m.c.Fail("recs-next", "records %+v limit=%d: the next page ID is %q, %d records are left", q, n, p.Next, len(all))
			return
		}
		if q.Start = p.Next; q.Start == "" {
			return
		}
		m.c.Count("pages", 1)
	}
}

// learn reads the IDs of the records of the log
func (m *amodel) learn(l *mlog) bool {
	if len(l.ids) == len(l.recs) {
		return true
	}
	q := recQuery{IDs: []string{l.id}, Limit: ptr(10000)}
	if len(l.ids) > 0 {
		q.Start = ulidNext(l.ids[len(l.ids)-1])
	}
	for {
		p, k := m.cls[m.r.Intn(2)].queryRecs(q)
		if k != "" {
			m.c.Fail("learn", "reading the log %s failed: %s", l.id, k)
			return false
		}
		for _, r := range p.Recs {
			if len(l.ids) == len(l.recs) || l.recs[len(l.ids)] != r.Payload || len(l.ids) > 0 && l.ids[len(l.ids)-1] >= r.ID {
				m.c.Fail("log-content", "the log %s: the record %s by %d is not what was appended", l.id, r.ID, len(l.ids))
				return false
			}
			l.ids = append(l.ids, r.ID)
		}
		if p.Next == "" {
			break
		}
		q.Start = p.Next
	}
	if len(l.ids) != len(l.recs) {
		m.c.Fail("log-content", "the log %s has %d records, %d were appended", l.id, len(l.ids), len(l.recs))
		return false
	}
	return true
}

func ulidNext(id string) string {
	u := ulid.MustParse(id)
	for i := 15; i >= 0; i-- {
		u[i]++
		if u[i] != 0 {
			break
		}
	}
	return u.String()
}

func a03Same(c *fw.Case) {
	s := start(c, genOpts(c))
	defer s.stop()
	m := newModel(c, s)
	for n := 40 + c.Rng.Intn(40); n > 0 && !c.Failed(); n-- {
		switch k := c.Rng.Intn(100); {
		case len(m.logs) < 2 || k < 12:
			m.create()
		case k < 20:
			m.update()
		case k < 45:
			m.append()
		case k < 50:
			m.del()
		case k < 70:
			m.queryLogs()
		default:
			m.queryRecs()
		}
	}
	c.Sample("%d logs, deleted %d, metadata in %s", len(m.logs), len(m.gone), map[bool]string{true: "postgres", false: "buntdb"}[s.o.pg != nil])
}
