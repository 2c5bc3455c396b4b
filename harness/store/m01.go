package store

import (
	"context"
	"errors"
	"fmt"
	"maps"
	"os"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	serrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/pkg/storage/buntdb"
	"github.com/solarisdb/solaris/pkg/storage/cache"
	"github.com/solarisdb/solaris/pkg/storage/logfs"
	"verif/harness/fw"
	"verif/harness/lcond"
)

func init() {
	fw.Register(&fw.Prop{
		ID: "M01",
		Rule: "ops: random sequences of create, get, update, query (IDs, condition, marked ones, page, limit), delete (IDs, condition, mark only or permanent) and " +
			"chunk infos updates against a reference model, with or without the cache and with restarts; every answer and error is compared, and the whole state after " +
			"an error; a request whose context is cancelled at a random point of it is applied or changes nothing. many: the same with 1100-2300 logs for the page limit, the cache eviction and condition deletes over many pages, with deletes of hundreds of logs by IDs, refused ones as well. full-disk: changes while the catalogue file may grow by a few bytes only: they fail and change nothing, the ones after work. Non-trivial: the query matches " +
			"something but not everything, or the operation changes something; distinct by the operation, the condition shape and the outcome",
		MinEvents: []string{"queries", "partial-match", "refused", "mark", "permanent", "pages", "restarts", "cond-deletes", "chunks", "cancelled", "bulk-deletes", "no-place"},
		Scens: []fw.Scenario{
			{Name: "ops", Quick: 240, Thorough: 12000, Run: m01Ops},
			{Name: "many", Quick: 8, Thorough: 200, Run: m01Many},
			{Name: "full-disk", Quick: 60, Thorough: 2000, Run: m01Disk},
		},
	})
	fw.Register(&fw.Prop{
		ID: "M02",
		Rule: "coherence: 2-4 writers (each owns its logs and numbers its updates) and 4 readers over the cached metadata storage whose inner calls are delayed before " +
			"and after; a read started after an acknowledged update, chunk infos update or delete must see it or a later one. faults: the same while changes fail, made or not: what is read after that is what is stored. evict: the same while other goroutines go " +
			"over more logs than the cache keeps. cond-delete: concurrent deletes by condition and tag changes: every delete succeeds, takes only logs which match at the " +
			"moment and each log is reported to be deleted once. distinct by the overlap observed (what was in progress when the read started)",
		MinEvents: []string{"reads", "overlapped-reads", "acked-writes", "deleted", "evict-reads", "cond-deletes", "failed-writes"},
		Scens: []fw.Scenario{
			{Name: "coherence", Quick: 48, Thorough: 2400, Run: m02Coherence, Watchdog: 2 * time.Minute},
			{Name: "faults", Quick: 32, Thorough: 1200, Run: m02Faults, Watchdog: 2 * time.Minute},
			{Name: "evict", Quick: 4, Thorough: 120, Run: m02Evict, Watchdog: 2 * time.Minute},
			{Name: "cond-delete", Quick: 24, Thorough: 1200, Run: m02CondDelete, Watchdog: 2 * time.Minute},
		},
	})
}

type (
	mlog struct {
		id      string
		tags    map[string]string
		created time.Time
		updated time.Time
		marked  bool
		chunks  map[string]logfs.ChunkInfo
	}

	metaModel struct {
		c    *fw.Case
		dir  string
		st   cache.LogsChunksMetaStorage
		db   *buntdb.Storage
		ca   bool
		logs map[string]*mlog
		dead []string // permanently deleted
		hist []string
		gen  lcond.Gen
	}
)

func newMetaModel(c *fw.Case) *metaModel {
	m := &metaModel{c: c, logs: map[string]*mlog{}, ca: c.Rng.Intn(2) == 0}
	if c.Rng.Intn(2) == 0 {
		m.dir = c.Dir()
	}
	m.gen = lcond.Gen{R: c.Rng, Under: true, Tags: []string{"a", "b", "c d", "名"}, Depth: 1 + c.Rng.Intn(4),
		Vals: []string{"", "x", "xy", "xyx", "yx", "X", "aa%bb", "ab", "a'b", "a\"b", "0", "10", "9", "ünï", "[x]", "x y", "not", "tag(", "_", "%"}}
	m.open()
	return m
}

func (m *metaModel) open() {
	cfg := buntdb.Config{}
	if m.dir != "" {
		cfg.DBFilePath = m.dir + "/meta.db"
	}
	m.db = buntdb.NewStorage(cfg)
	if err := m.db.Init(fw.Ctx()); err != nil {
		m.c.Fatal("open-failed", "the metadata storage can't be opened: %v\n%s", err, m.tail())
	}
	m.st = m.db
	if m.ca {
		m.st = cache.NewCachedStorage(m.db)
	}
}

func (m *metaModel) log(f string, a ...any) { m.hist = append(m.hist, fmt.Sprintf(f, a...)) }
func (m *metaModel) tail() string {
	h := m.hist
	if len(h) > 25 {
		h = h[len(h)-25:]
	}
	return fmt.Sprintf("cached=%t file=%t history:\n%s", m.ca, m.dir != "", strings.Join(h, "\n"))
}

func (m *metaModel) ids(f func(l *mlog) bool) []string {
	var r []string
	for id, l := range m.logs {
		if f(l) {
			r = append(r, id)
		}
	}
	sort.Strings(r)
	return r
}

func (m *metaModel) anyID() string {
	all := m.ids(func(*mlog) bool { return true })
	switch k := m.c.Rng.Intn(12); {
	case k == 0 && len(m.dead) > 0:
		return m.dead[m.c.Rng.Intn(len(m.dead))]
	case k == 1 || len(all) == 0:
		return ulid.Make().String()
	}
	return all[m.c.Rng.Intn(len(all))]
}

func (m *metaModel) genTags() map[string]string {
	var t map[string]string
	for _, n := range m.gen.Tags {
		if m.c.Rng.Intn(3) > 0 {
			if t == nil {
				t = map[string]string{}
			}
			t[n] = m.gen.Vals[m.c.Rng.Intn(len(m.gen.Vals))]
		}
	}
	return t
}

func (m *metaModel) check(l *solaris.Log, ml *mlog, what string) {
	if l == nil {
		m.c.Fatal("nil-log", "%s returned nil\n%s", what, m.tail())
	}
	if l.ID != ml.id || !maps.Equal(l.Tags, ml.tags) {
		m.c.Fatal("wrong-log", "%s returned ID=%s tags=%q, want ID=%s tags=%q\n%s", what, l.ID, l.Tags, ml.id, ml.tags, m.tail())
	}
	if !l.CreatedAt.AsTime().Equal(ml.created) || !l.UpdatedAt.AsTime().Equal(ml.updated) {
		m.c.Fatal("wrong-times", "%s returned created=%v updated=%v, want %v and %v\n%s", what, l.CreatedAt.AsTime(), l.UpdatedAt.AsTime(), ml.created, ml.updated, m.tail())
	}
}

func (m *metaModel) wantErr(err, want error, what string) {
	m.c.Eval(1)
	if want == nil && err != nil || want != nil && !errors.Is(err, want) {
		m.c.Fatal("wrong-error", "%s: err=%v, want %v\n%s", what, err, want, m.tail())
	}
	if want != nil {
		m.c.Count("refused", 1)
	}
}

func (m *metaModel) create() {
	tags := m.genTags()
	b := time.Now()
	l, err := m.st.CreateLog(fw.Ctx(), &solaris.Log{Tags: maps.Clone(tags)})
	e := time.Now()
	m.log("create %q", tags)
	m.wantErr(err, nil, "create")
	if m.logs[l.ID] != nil || slices.Contains(m.dead, l.ID) || l.ID == "" {
		m.c.Fatal("dup-log-id", "the new log ID %q is used\n%s", l.ID, m.tail())
	}
	if !maps.Equal(l.Tags, tags) {
		m.c.Fatal("wrong-log", "create returned tags=%q want %q", l.Tags, tags)
	}
	if ct := l.CreatedAt.AsTime(); ct.Before(b) || ct.After(e) {
		m.c.Fatal("wrong-times", "the log created within [%v, %v] has creation time %v", b, e, ct)
	}
	m.logs[l.ID] = &mlog{id: l.ID, tags: tags, created: l.CreatedAt.AsTime(), updated: l.UpdatedAt.AsTime(), chunks: map[string]logfs.ChunkInfo{}}
	m.hist[len(m.hist)-1] += " -> " + l.ID
}

// live returns the log if it exists and is not marked
func (m *metaModel) live(id string) *mlog {
	if l := m.logs[id]; l != nil && !l.marked {
		return l
	}
	return nil
}

func (m *metaModel) get(id string) {
	l, err := m.st.GetLogByID(fw.Ctx(), id)
	m.log("get %s", id)
	ml := m.live(id)
	switch {
	case id == "":
		m.wantErr(err, serrors.ErrInvalid, "get with no ID")
	case ml == nil:
		m.wantErr(err, serrors.ErrNotExist, "get of an unknown or a deleted log")
	default:
		m.wantErr(err, nil, "get")
		m.check(l, ml, "get")
	}
}

func (m *metaModel) update(id string) {
	tags := m.genTags()
	b := time.Now()
	l, err := m.st.UpdateLog(fw.Ctx(), &solaris.Log{ID: id, Tags: maps.Clone(tags)})
	m.log("update %s %q", id, tags)
	ml := m.live(id)
	switch {
	case id == "":
		m.wantErr(err, serrors.ErrInvalid, "update with no ID")
	case ml == nil:
		m.wantErr(err, serrors.ErrNotExist, "update of an unknown or a deleted log")
	default:
		m.wantErr(err, nil, "update")
		ml.tags = tags
		if ut := l.UpdatedAt.AsTime(); ut.Before(b) || ut.After(time.Now()) {
			m.c.Fatal("wrong-times", "the log updated after %v has the update time %v\n%s", b, ut, m.tail())
		}
		ml.updated = l.UpdatedAt.AsTime()
		m.check(l, ml, "update")
	}
}

// query makes one random query and walks over the pages
func (m *metaModel) query(big bool) {
	r := storage.QueryLogsRequest{Deleted: m.c.Rng.Intn(3) == 0}
	sel := map[string]bool{}
	shape := ""
	bad := false
	if m.c.Rng.Intn(4) == 0 {
		for n := 1 + m.c.Rng.Intn(6); n > 0; n-- {
			id := m.anyID()
			r.IDs = append(r.IDs, id)
			if m.c.Rng.Intn(4) == 0 {
				r.IDs = append(r.IDs, id)
			}
			if m.logs[id] != nil {
				sel[id] = true
			}
		}
		if m.c.Rng.Intn(3) == 0 { // must be ignored
			r.Condition = pick(m.c, "tag('a') = 'x'", "logID = 'nope'")
		}
		shape = "ids"
	} else if m.c.Rng.Intn(12) == 0 {
		bad = true
		r.Condition = pick(m.c, "tag('a')", "foo = 'a'", "logID", "tag(a = 'b'", "tag('a') = ", "'a' = 'b'", "logID = 1", "logID like ['a']", "logID in 'a'", "tag('a','b') = 'a'",
			"tag() = 'a'", "((logID = 'a')", "logID = 'a' AND", "NOT", "tag = 'a'", "tag('a') = tag", "tag('a') = tag()", "tag('a') = tag('b','c')", "tag('a') > logID", "ctime > '1'", "tag('a') == 'b'", "logID = 'a' logID = 'b'", "tag(1) = 'a'")
	} else {
		m.gen.IDs = m.ids(func(*mlog) bool { return true })
		cond := &lcond.Cond{Kind: "and"}
		if m.c.Rng.Intn(5) > 0 {
			cond = m.gen.Cond()
			r.Condition = m.gen.Text(cond)
		} else {
			r.Condition = pick(m.c, "", " ", "\n\t")
		}
		for id, l := range m.logs {
			if cond.Eval(id, l.tags) {
				sel[id] = true
			}
		}
		shape = cond.Shape()
	}
	if !r.Deleted {
		for id := range sel {
			if m.logs[id].marked {
				delete(sel, id)
			}
		}
	}
	exp := m.ids(func(l *mlog) bool { return sel[l.id] })
	lims := []int64{0, -1, 1, 2, 3, 5, 50, 51, 1000, 1 << 40}
	if big {
		lims = []int64{0, -5, 999, 1000, 1001, 1 << 40, 300}
	}
	r.Limit = lims[m.c.Rng.Intn(len(lims))]
	lim := int(min(r.Limit, 1000))
	if r.Limit <= 0 {
		lim = 50
	}
	rest := exp
	if m.c.Rng.Intn(4) == 0 {
		r.Page = m.anyID()
		rest = exp[sort.SearchStrings(exp, r.Page):]
	}
	m.c.Count("queries", 1)
	if len(exp) > 0 && len(exp) < len(m.logs) {
		m.c.Count("partial-match", 1)
		m.c.Distinct("q", shape, r.Deleted, lim, len(exp), r.Page != "")
	}
	m.log("query %+v", r)
	for pg := 0; ; pg++ {
		qr, err := m.st.QueryLogs(fw.Ctx(), r)
		if bad {
			m.wantErr(err, serrors.ErrInvalid, "query with the condition "+r.Condition)
			return
		}
		m.wantErr(err, nil, fmt.Sprintf("query %+v", r))
		if qr.Total != int64(len(exp)) {
			m.c.Fatal("wrong-total", "query %+v: total=%d, but %d logs match\n%s", r, qr.Total, len(exp), m.tail())
		}
		want := rest[:min(lim, len(rest))]
		got := make([]string, len(qr.Logs))
		for i, l := range qr.Logs {
			got[i] = l.ID
			if i < len(want) && want[i] == l.ID {
				m.check(l, m.logs[l.ID], "query")
			}
		}
		if !slices.Equal(got, want) {
			m.c.Fatal("wrong-logs", "query %+v page %d returned %d logs %v, want %d %v\n%s", r, pg, len(got), ssh(got), len(want), ssh(want), m.tail())
		}
		rest = rest[len(want):]
		if (qr.NextPageID != "") != (len(rest) > 0) {
			m.c.Fatal("wrong-next", "query %+v: nextPageID=%q, but %d more logs left\n%s", r, qr.NextPageID, len(rest), m.tail())
		}
		if len(rest) == 0 {
			return
		}
		m.c.Count("pages", 1)
		if pg > 60 {
			return
		}
		r.Page = qr.NextPageID
	}
}

func ssh(ss []string) []string {
	if len(ss) > 12 {
		return append(slices.Clone(ss[:12]), "...")
	}
	return ss
}

func (m *metaModel) del() {
	r := storage.DeleteLogsRequest{MarkOnly: m.c.Rng.Intn(2) == 0}
	var hit []string
	fail := false
	if m.c.Rng.Intn(3) > 0 {
		seen := map[string]bool{}
		for n := 1 + m.c.Rng.Intn(3); n > 0; n-- {
			id := m.anyID()
			r.IDs = append(r.IDs, id)
			if r.MarkOnly && (m.live(id) == nil || seen[id]) {
				fail = true
			}
			if m.logs[id] != nil && !seen[id] {
				hit = append(hit, id)
			}
			seen[id] = true
		}
	} else {
		m.gen.IDs = m.ids(func(*mlog) bool { return true })
		cond := m.gen.Cond()
		if m.c.Rng.Intn(3) > 0 && len(m.gen.IDs) > 0 { // a narrow one
			cond = &lcond.Cond{Kind: "and", Subs: []*lcond.Cond{cond, {Kind: "in", L: lcond.Val{Kind: "id"}, Arr: []string{m.anyID(), m.anyID(), m.anyID()}}}}
		}
		r.Condition = m.gen.Text(cond)
		hit = m.ids(func(l *mlog) bool { return cond.Eval(l.id, l.tags) && !(r.MarkOnly && l.marked) })
		m.c.Count("cond-deletes", 1)
		if m.c.Rng.Intn(10) == 0 {
			r.Condition, hit = pick(m.c, "", " ", "\t \n"), nil // nothing is specified, nothing to delete
		} else if m.c.Rng.Intn(10) == 0 {
			r.Condition = pick(m.c, "tag('a')", "tag('a') = tag", "logID = ", "x = 'y'")
			_, err := m.st.DeleteLogs(fw.Ctx(), r)
			m.log("delete %+v", r)
			m.wantErr(err, serrors.ErrInvalid, "delete with the condition "+r.Condition)
			m.full("after the refused delete")
			return
		}
	}
	m.delete(r, hit, fail)
}

// delete makes the request, which must delete the logs hit or be refused
func (m *metaModel) delete(r storage.DeleteLogsRequest, hit []string, fail bool) {
	dr, err := m.st.DeleteLogs(fw.Ctx(), r)
	m.log("delete mark=%t %q %d ids %v", r.MarkOnly, r.Condition, len(r.IDs), ssh(r.IDs))
	if fail {
		m.wantErr(err, serrors.ErrNotExist, "delete")
		m.full("after the refused delete")
		return
	}
	m.wantErr(err, nil, "delete")
	got := slices.Clone(dr.DeletedIDs)
	slices.Sort(got)
	got = slices.Compact(got)
	got = slices.DeleteFunc(got, func(id string) bool { return m.logs[id] == nil && slices.Contains(r.IDs, id) })
	slices.Sort(hit)
	if !slices.Equal(got, hit) {
		m.c.Fatal("wrong-deleted", "delete reported %v, want %v\n%s", ssh(got), ssh(hit), m.tail())
	}
	for _, id := range hit {
		if r.MarkOnly {
			m.logs[id].marked = true
			m.logs[id].updated = time.Time{} // unknown, to be learned
			m.c.Count("mark", 1)
		} else {
			for cid := range m.logs[id].chunks {
				if ci, err := m.db.GetLastChunk(fw.Ctx(), id); err == nil {
					m.c.Fatal("chunks-left", "the log %s is deleted, but its chunk %s is still there (had %s)\n%s", id, ci.ID, cid, m.tail())
				}
			}
			delete(m.logs, id)
			m.dead = append(m.dead, id)
			m.c.Count("permanent", 1)
		}
	}
	if len(hit) > 0 {
		m.c.Distinct("d", r.MarkOnly, len(r.IDs), len(hit))
	}
	m.learn(hit)
}

// learn reads the update time of the logs marked
func (m *metaModel) learn(ids []string) {
	for _, id := range ids {
		if l := m.logs[id]; l != nil && l.updated.IsZero() {
			qr, err := m.st.QueryLogs(fw.Ctx(), storage.QueryLogsRequest{IDs: []string{id}, Deleted: true})
			if err != nil || len(qr.Logs) != 1 {
				m.c.Fatal("wrong-logs", "the log %s is marked, but not found between the marked ones: %v %v\n%s", id, qr, err, m.tail())
			}
			l.updated = qr.Logs[0].UpdatedAt.AsTime()
		}
	}
}

func (m *metaModel) upsert() {
	id := m.anyID()
	var cis []logfs.ChunkInfo
	bad := false
	ml := m.logs[id]
	for n := m.c.Rng.Intn(4); n > 0; n-- {
		ci := logfs.ChunkInfo{ID: ulid.Make().String(), Min: ulid.Make(), Max: ulid.Make(), RecordsCount: m.c.Rng.Intn(100)}
		if ml != nil && len(ml.chunks) > 0 && m.c.Rng.Intn(2) == 0 {
			ks := slices.Sorted(maps.Keys(ml.chunks))
			ci.ID = ks[m.c.Rng.Intn(len(ks))]
		}
		if m.c.Rng.Intn(15) == 0 {
			ci.ID = pick(m.c, "", " ")
			bad = true
		}
		cis = append(cis, ci)
	}
	m.c.Rng.Shuffle(len(cis), func(i, j int) { cis[i], cis[j] = cis[j], cis[i] })
	err := m.st.UpsertChunkInfos(fw.Ctx(), id, slices.Clone(cis))
	m.log("upsert %s %+v", id, cis)
	switch {
	case m.live(id) == nil:
		m.wantErr(err, serrors.ErrNotExist, "chunk infos of an unknown or a deleted log")
	case bad:
		m.wantErr(err, serrors.ErrInvalid, "a chunk info with no ID")
	default:
		m.wantErr(err, nil, "upsert")
		for _, ci := range cis {
			ml.chunks[ci.ID] = ci
		}
		m.c.Count("chunks", len(cis))
	}
	m.chunks(id)
}

func (m *metaModel) chunks(id string) {
	ml := m.live(id)
	cis, err := m.st.GetChunks(fw.Ctx(), id)
	lc, lerr := m.st.GetLastChunk(fw.Ctx(), id)
	if ml == nil {
		m.wantErr(err, serrors.ErrNotExist, "get chunks of an unknown or a deleted log")
		if m.logs[id] == nil {
			m.wantErr(lerr, serrors.ErrNotExist, "get the last chunk of an unknown log")
		}
		return
	}
	m.wantErr(err, nil, "get chunks")
	exp := slices.Sorted(maps.Keys(ml.chunks))
	if len(cis) != len(exp) {
		m.c.Fatal("wrong-chunks", "log %s: %d chunks, want %d\n%s", id, len(cis), len(exp), m.tail())
	}
	for i, ci := range cis {
		if ci != ml.chunks[exp[i]] {
			m.c.Fatal("wrong-chunks", "log %s: chunk #%d %+v, want %+v\n%s", id, i, ci, ml.chunks[exp[i]], m.tail())
		}
	}
	if len(exp) == 0 {
		if lerr == nil && lc != (logfs.ChunkInfo{}) || lerr != nil && !errors.Is(lerr, serrors.ErrNotExist) {
			m.c.Fatal("wrong-last-chunk", "log %s without chunks: the last one is %+v, err=%v\n%s", id, lc, lerr, m.tail())
		}
		return
	}
	m.wantErr(lerr, nil, "get last chunk")
	if lc != ml.chunks[exp[len(exp)-1]] {
		m.c.Fatal("wrong-last-chunk", "log %s: the last chunk is %+v, want %+v\n%s", id, lc, ml.chunks[exp[len(exp)-1]], m.tail())
	}
}

// full compares the whole state
func (m *metaModel) full(what string) {
	r := storage.QueryLogsRequest{Deleted: true, Limit: 1000}
	exp := m.ids(func(*mlog) bool { return true })
	for {
		qr, err := m.st.QueryLogs(fw.Ctx(), r)
		m.wantErr(err, nil, "full query "+what)
		if len(qr.Logs) > len(exp) {
			m.c.Fatal("wrong-logs", "%s: unexpected logs are found\n%s", what, m.tail())
		}
		for i, l := range qr.Logs {
			if l.ID != exp[i] {
				m.c.Fatal("wrong-logs", "%s: log %s is found instead of %s\n%s", what, l.ID, exp[i], m.tail())
			}
			m.check(l, m.logs[l.ID], what)
		}
		exp = exp[len(qr.Logs):]
		if r.Page = qr.NextPageID; r.Page == "" {
			break
		}
	}
	if len(exp) > 0 {
		m.c.Fatal("wrong-logs", "%s: logs %v are not found\n%s", what, ssh(exp), m.tail())
	}
	all := m.ids(func(*mlog) bool { return true })
	if len(all) > 200 {
		all = all[len(all)-200:]
	}
	for _, id := range all {
		m.get(id)
		m.hist = m.hist[:len(m.hist)-1]
		m.chunks(id)
	}
}

func (m *metaModel) step(big bool) {
	switch k := m.c.Rng.Intn(100); {
	case k < 12:
		m.create()
	case k < 25:
		m.get(m.anyID())
	case k < 26:
		if m.ca {
			_, err := m.st.GetLogByID(fw.Ctx(), "")
			m.wantErr(err, serrors.ErrInvalid, "get with no ID")
		}
		m.update("")
	case k < 40:
		m.update(m.anyID())
	case k < 65:
		m.query(big)
	case k < 75:
		m.del()
	case k < 92:
		m.upsert()
	case k < 96:
		m.chunks(m.anyID())
	case k < 97 && m.dir != "":
		m.db.Shutdown()
		m.open()
		m.log("restart")
		m.c.Count("restarts", 1)
		m.full("after the restart")
	case k < 98: // a cancelled request either works or changes nothing
		m.cancelled()
	default:
		m.full("now")
	}
}

// cancelled makes a request whose context is cancelled while it is served: it either works or changes nothing
func (m *metaModel) cancelled() {
	ids := m.ids(func(l *mlog) bool { return !l.marked })
	if len(ids) == 0 {
		return
	}
	at := m.c.Rng.Intn(10)
	if m.c.Rng.Intn(2) == 0 {
		at = m.c.Rng.Intn(len(ids) + 2)
	}
	m.log("cancelled at %d", at)
	ok, n := m.attempt(fw.CancelAt(at), ids)
	m.c.Count("cancelled", 1)
	m.c.Distinct("cancelled", at, ok, n)
	m.full("after the cancelled request")
}

// attempt makes a change of some of the logs, which may fail, and returns whether it worked and how many logs it was for
func (m *metaModel) attempt(ctx context.Context, ids []string) (bool, int) {
	m.c.Rng.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	some := ids[:1+m.c.Rng.Intn(len(ids))]
	if m.c.Rng.Intn(2) == 0 {
		some = ids[:min(len(ids), 1+m.c.Rng.Intn(3))]
	}
	ok := false
	switch m.c.Rng.Intn(5) {
	case 0, 1:
		r := storage.DeleteLogsRequest{IDs: some, MarkOnly: m.c.Rng.Intn(2) == 0}
		if m.c.Rng.Intn(3) == 0 {
			r.IDs, r.Condition = nil, "logID in ['"+strings.Join(some, "','")+"']"
		}
		_, err := m.st.DeleteLogs(ctx, r)
		m.log("delete mark=%t %d logs %v: %v", r.MarkOnly, len(some), ssh(some), err)
		if ok = err == nil; ok {
			for _, id := range some {
				if r.MarkOnly {
					m.logs[id].marked = true
					m.logs[id].updated = time.Time{}
					continue
				}
				delete(m.logs, id)
				m.dead = append(m.dead, id)
			}
			m.learn(some)
		}
	case 2, 3:
		var cis []logfs.ChunkInfo
		for n := 1 + m.c.Rng.Intn(30); n > 0; n-- {
			cis = append(cis, logfs.ChunkInfo{ID: ulid.Make().String()})
		}
		err := m.st.UpsertChunkInfos(ctx, some[0], slices.Clone(cis))
		m.log("upsert of %d chunk infos to %s: %v", len(cis), some[0], err)
		if ok = err == nil; ok {
			for _, ci := range cis {
				m.logs[some[0]].chunks[ci.ID] = ci
			}
		}
	default:
		tags := m.genTags()
		l, err := m.st.UpdateLog(ctx, &solaris.Log{ID: some[0], Tags: maps.Clone(tags)})
		m.log("update %s %q: %v", some[0], tags, err)
		if ok = err == nil; ok {
			m.logs[some[0]].tags = tags
			m.logs[some[0]].updated = l.UpdatedAt.AsTime()
		}
	}
	return ok, len(some)
}

// m01Disk makes changes while there is no place on the disk for the catalogue: they fail and change nothing, the ones after work
func m01Disk(c *fw.Case) {
	m := newMetaModel(c)
	for m.dir == "" {
		m.db.Shutdown()
		m = newMetaModel(c)
	}
	defer func() { m.db.Shutdown() }()
	defer fileLimit(-1)
	for n := 5 + c.Rng.Intn(20); n > 0 && !c.Failed(); n-- {
		for k := c.Rng.Intn(10); k > 0; k-- {
			m.step(false)
		}
		fi, err := os.Stat(m.dir + "/meta.db")
		fw.Must(err)
		room := pick(c, 0, 1, c.Rng.Intn(400), c.Rng.Intn(4000))
		ids := m.ids(func(l *mlog) bool { return !l.marked })
		m.log("place on the disk: %d", room)
		fileLimit(fi.Size() + int64(room))
		ok, some := false, 0
		if len(ids) == 0 || c.Rng.Intn(3) == 0 {
			tags := m.genTags()
			l, err := m.st.CreateLog(fw.Ctx(), &solaris.Log{Tags: maps.Clone(tags)})
			m.log("create %q: %v", tags, err)
			if ok = err == nil; ok {
				m.logs[l.ID] = &mlog{id: l.ID, tags: tags, created: l.CreatedAt.AsTime(), updated: l.UpdatedAt.AsTime(), chunks: map[string]logfs.ChunkInfo{}}
			}
		} else {
			ok, some = m.attempt(fw.Ctx(), ids)
		}
		m.full("with no place on the disk")
		fileLimit(-1)
		c.Eval(1)
		if !ok {
			c.Count("no-place", 1)
		}
		c.Distinct("no-place", room, ok, some)
		if c.Rng.Intn(3) == 0 {
			m.db.Shutdown()
			m.open()
			m.log("restart")
			m.full("after the restart")
		}
	}
}

// bulkDel deletes hundreds of logs by IDs, sometimes with an unknown one, so the request is refused if it marks
func (m *metaModel) bulkDel() {
	ids := m.ids(func(l *mlog) bool { return !l.marked })
	if len(ids) == 0 {
		return
	}
	m.c.Rng.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	r := storage.DeleteLogsRequest{MarkOnly: m.c.Rng.Intn(2) == 0}
	r.IDs = slices.Clone(ids[:1+m.c.Rng.Intn(len(ids))])
	if len(ids) > 101 && m.c.Rng.Intn(2) == 0 {
		r.IDs = slices.Clone(ids[:101+m.c.Rng.Intn(len(ids)-100)])
	}
	hit := slices.Clone(r.IDs)
	fail := false
	if m.c.Rng.Intn(2) == 0 {
		k := len(r.IDs)
		if m.c.Rng.Intn(3) == 0 {
			k = m.c.Rng.Intn(k)
		}
		r.IDs = slices.Insert(r.IDs, k, ulid.Make().String())
		fail = r.MarkOnly
	}
	m.c.Count("bulk-deletes", 1)
	m.delete(r, hit, fail)
	if !fail {
		m.full("after the bulk delete")
	}
}

func m01Ops(c *fw.Case) {
	m := newMetaModel(c)
	defer func() { m.db.Shutdown() }()
	for n := 60 + c.Rng.Intn(100); n > 0; n-- {
		m.step(false)
	}
	m.full("at the end")
	c.Sample("%s", strings.Join(m.hist[:min(6, len(m.hist))], "; "))
}

func m01Many(c *fw.Case) {
	m := newMetaModel(c)
	m.ca = m.ca || c.Rng.Intn(2) == 0
	defer func() { m.db.Shutdown() }()
	for n := 1100 + c.Rng.Intn(1200); n > 0; n-- {
		m.create()
		if c.Rng.Intn(3) == 0 {
			m.get(m.anyID())
		}
	}
	for n := 25; n > 0; n-- {
		m.step(true)
		if n%5 == 2 {
			m.cancelled()
		}
		if n%8 == 3 {
			m.bulkDel()
			for k := m.c.Rng.Intn(500); k > 0; k-- {
				m.create()
			}
		}
		if m.c.Rng.Intn(4) == 0 {
			for k := 0; k < 300; k++ {
				m.get(m.anyID())
			}
		}
	}
	m.full("at the end")
}

// ------------------------------------------------------------------------------------------ M02

// lagMeta delays the calls before and after
type lagMeta struct {
	cache.LogsChunksMetaStorage
	d    func()
	busy atomic.Int32
	// fault returns whether the change must be made and whether it must fail then
	fault func() (apply, fail bool)
}

var errMeta = errors.New("injected: the connection is lost")

// change makes the change if it must be made, and reports the failure if it is injected
func (s *lagMeta) change(f func() error) error {
	apply, fail := true, false
	if s.fault != nil {
		apply, fail = s.fault()
	}
	if apply {
		if err := f(); err != nil {
			return err
		}
	}
	if fail {
		return errMeta
	}
	return nil
}

func (s *lagMeta) wrap() func() {
	s.busy.Add(1)
	s.d()
	return func() { s.d(); s.busy.Add(-1) }
}
func (s *lagMeta) GetLogByID(ctx context.Context, id string) (*solaris.Log, error) {
	defer s.wrap()()
	return s.LogsChunksMetaStorage.GetLogByID(ctx, id)
}
func (s *lagMeta) UpdateLog(ctx context.Context, l *solaris.Log) (*solaris.Log, error) {
	defer s.wrap()()
	var res *solaris.Log
	if err := s.change(func() (err error) { res, err = s.LogsChunksMetaStorage.UpdateLog(ctx, l); return }); err != nil {
		return nil, err
	}
	return res, nil
}
func (s *lagMeta) DeleteLogs(ctx context.Context, r storage.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
	defer s.wrap()()
	var res *solaris.DeleteLogsResult
	if err := s.change(func() (err error) { res, err = s.LogsChunksMetaStorage.DeleteLogs(ctx, r); return }); err != nil {
		return nil, err
	}
	return res, nil
}
func (s *lagMeta) GetChunks(ctx context.Context, id string) ([]logfs.ChunkInfo, error) {
	defer s.wrap()()
	return s.LogsChunksMetaStorage.GetChunks(ctx, id)
}
func (s *lagMeta) UpsertChunkInfos(ctx context.Context, id string, cis []logfs.ChunkInfo) error {
	defer s.wrap()()
	return s.change(func() error { return s.LogsChunksMetaStorage.UpsertChunkInfos(ctx, id, cis) })
}

// vlog is the log owned by a writer
type vlog struct {
	id                string
	tagAck, tagSent   atomic.Int64
	chnkAck, chnkSent atomic.Int64
	delAck, delSent   atomic.Bool
	chunkID           string
}

type m02 struct {
	c    *fw.Case
	sm   *lagMeta
	st   *cache.CachedStorage
	db   *buntdb.Storage
	logs []*vlog
	stop atomic.Bool
}

func newM02(c *fw.Case, n int, maxDelay time.Duration) *m02 {
	db := buntdb.NewStorage(buntdb.Config{})
	fw.Must(db.Init(fw.Ctx()))
	var mu sync.Mutex
	rng := newRand(c.Rng.Int63())
	m := &m02{c: c, db: db}
	m.sm = &lagMeta{LogsChunksMetaStorage: db, d: func() {
		mu.Lock()
		k := rng.Intn(4)
		d := time.Duration(rng.Int63n(int64(maxDelay) + 1))
		mu.Unlock()
		if k > 0 && maxDelay > 0 {
			time.Sleep(d)
		}
	}}
	m.st = cache.NewCachedStorage(m.sm)
	for i := 0; i < n; i++ {
		l, err := m.st.CreateLog(fw.Ctx(), &solaris.Log{Tags: map[string]string{"v": "0"}})
		fw.Must(err)
		m.logs = append(m.logs, &vlog{id: l.ID, chunkID: ulid.Make().String()})
	}
	return m
}

func (m *m02) read(k int, v *vlog) {
	c := m.c
	ta, ca, da := v.tagAck.Load(), v.chnkAck.Load(), v.delAck.Load()
	busy := m.sm.busy.Load()
	var got int64
	var err error
	what := ""
	switch k {
	case 0:
		var l *solaris.Log
		what = "get log"
		if l, err = m.st.GetLogByID(fw.Ctx(), v.id); err == nil {
			fmt.Sscan(l.Tags["v"], &got)
			if got < ta || got > v.tagSent.Load() {
				c.Fail("stale-log", "update #%d of the log was acknowledged before the read started, but the read returned #%d", ta, got)
			}
		}
	case 1, 2:
		var n int
		if k == 1 {
			what = "get chunks"
			var cis []logfs.ChunkInfo
			if cis, err = m.st.GetChunks(fw.Ctx(), v.id); err == nil && len(cis) > 0 {
				n = cis[len(cis)-1].RecordsCount
			}
		} else {
			what = "get last chunk"
			var ci logfs.ChunkInfo
			ci, err = m.st.GetLastChunk(fw.Ctx(), v.id)
			n = ci.RecordsCount
		}
		got = int64(n)
		if err == nil && (got < ca || got > v.chnkSent.Load()) {
			c.Fail("stale-chunks", "%s: update #%d of the chunk was acknowledged before the read started, but the read returned #%d", what, ca, got)
		}
	}
	c.Eval(1)
	c.Count("reads", 1)
	if busy > 0 {
		c.Count("overlapped-reads", 1)
		c.Distinct(what, busy, got, da, err == nil)
	}
	switch {
	case err == nil && da:
		c.Fail("deleted-visible", "%s: the log deletion was acknowledged before the read started, but the log is there", what)
	case err != nil && !errors.Is(err, serrors.ErrNotExist):
		c.Fail("read-error", "%s: %v", what, err)
	case err != nil && !v.delSent.Load():
		c.Fail("read-error", "%s: %v, but the log is not deleted", what, err)
	}
}

func (m *m02) write(k int, v *vlog) {
	switch {
	case k < 5:
		n := v.tagSent.Add(1)
		_, err := m.st.UpdateLog(fw.Ctx(), &solaris.Log{ID: v.id, Tags: map[string]string{"v": fmt.Sprint(n)}})
		if err != nil {
			m.failed("update", v, err)
			return
		}
		v.tagAck.Store(n)
	case k < 10:
		n := v.chnkSent.Add(1)
		if err := m.st.UpsertChunkInfos(fw.Ctx(), v.id, []logfs.ChunkInfo{{ID: v.chunkID, RecordsCount: int(n)}}); err != nil {
			m.failed("upsert", v, err)
			return
		}
		v.chnkAck.Store(n)
	default:
		v.delSent.Store(true)
		r := storage.DeleteLogsRequest{IDs: []string{v.id}, MarkOnly: k%2 == 0}
		if k >= 12 { // by a condition
			r.IDs, r.Condition = nil, fmt.Sprintf("logID = '%s'", v.id)
			m.c.Count("cond-deletes", 1)
		}
		if _, err := m.st.DeleteLogs(fw.Ctx(), r); err != nil {
			m.failed("delete", v, err)
			return
		}
		v.delAck.Store(true)
		m.c.Count("deleted", 1)
	}
	m.c.Count("acked-writes", 1)
}

// failed is called by the writer when its write failed: nobody else changes the log, so what is read must be what is stored
func (m *m02) failed(what string, v *vlog, err error) {
	if !errors.Is(err, errMeta) {
		if !errors.Is(err, serrors.ErrNotExist) || !v.delSent.Load() {
			m.c.Fail("write-error", "%s: %v", what, err)
		}
		return
	}
	m.c.Count("failed-writes", 1)
	m.same("after the failed "+what, v)
}

// same compares the log read through the cache with the stored one
func (m *m02) same(when string, v *vlog) {
	l, err := m.st.GetLogByID(fw.Ctx(), v.id)
	cis, cerr := m.st.GetChunks(fw.Ctx(), v.id)
	wl, werr := m.db.GetLogByID(fw.Ctx(), v.id)
	wcis, wcerr := m.db.GetChunks(fw.Ctx(), v.id)
	m.c.Eval(1)
	if fmt.Sprint(l.GetTags(), err != nil) != fmt.Sprint(wl.GetTags(), werr != nil) {
		m.c.Fail("stale-log", "%s the log %q (err=%v) is read, but %q (err=%v) is stored", when, l.GetTags(), err, wl.GetTags(), werr)
	}
	if fmt.Sprint(cis, cerr != nil) != fmt.Sprint(wcis, wcerr != nil) {
		m.c.Fail("stale-chunks", "%s the chunks %v (err=%v) are read, but %v (err=%v) are stored", when, cis, cerr, wcis, wcerr)
	}
	m.c.Distinct("same", when, werr != nil, len(wcis))
}

func (m *m02) run(writers, readers, steps int) {
	var wg, rg sync.WaitGroup
	for w := 0; w < writers; w++ {
		rng := newRand(m.c.Rng.Int63())
		m.c.Go(&wg, "writer", func() {
			for i := 0; i < steps && !m.c.Failed(); i++ {
				k := rng.Intn(len(m.logs)/writers)*writers + w
				v := m.logs[k]
				if v.delSent.Load() {
					continue
				}
				op := rng.Intn(10)
				if i > steps/2 && rng.Intn(6) == 0 {
					op = 10 + rng.Intn(4)
				}
				m.write(op, v)
				if rng.Intn(3) == 0 { // and read it straight away
					m.read(rng.Intn(3), v)
				}
			}
		})
	}
	for r := 0; r < readers; r++ {
		rng := newRand(m.c.Rng.Int63())
		m.c.Go(&rg, "reader", func() {
			for !m.stop.Load() && !m.c.Failed() {
				m.read(rng.Intn(3), m.logs[rng.Intn(len(m.logs))])
			}
		})
	}
	wg.Wait()
	m.stop.Store(true)
	rg.Wait()
	// everything is quiet: the final state
	for _, v := range m.logs {
		for k := 0; k < 3 && !m.c.Failed(); k++ {
			m.read(k, v)
		}
		m.same("when everything is quiet", v)
	}
}

// m02Faults is the coherence while some changes fail: before they are made, or after (the answer of the database is lost)
func m02Faults(c *fw.Case) {
	w := 1 + c.Rng.Intn(3)
	m := newM02(c, w*(1+c.Rng.Intn(3)), time.Duration(c.Rng.Intn(200))*time.Microsecond)
	var mu sync.Mutex
	rng := newRand(c.Rng.Int63())
	m.sm.fault = func() (bool, bool) {
		mu.Lock()
		defer mu.Unlock()
		switch rng.Intn(6) {
		case 0:
			return true, true
		case 1:
			return false, true
		}
		return true, false
	}
	m.run(w, 3, 60)
	c.Sample("faults writers=%d logs=%d", w, len(m.logs))
}

func m02Coherence(c *fw.Case) {
	w := 1 + c.Rng.Intn(4)
	m := newM02(c, w*(1+c.Rng.Intn(3)), time.Duration(c.Rng.Intn(400))*time.Microsecond)
	m.run(w, 4, 60)
	c.Sample("writers=%d logs=%d", w, len(m.logs))
}

func m02Evict(c *fw.Case) {
	m := newM02(c, 1300, 0)
	var mu sync.Mutex
	rng := newRand(c.Rng.Int63())
	m.sm.d = func() {
		mu.Lock()
		k := rng.Intn(40)
		mu.Unlock()
		if k == 0 {
			time.Sleep(50 * time.Microsecond)
		}
	}
	m.run(4, 4, 1500)
	c.Count("evict-reads", len(m.logs))
}

func m02CondDelete(c *fw.Case) {
	m := newM02(c, 0, 0)
	n := 20 + c.Rng.Intn(60)
	ids := make([]string, n)
	for i := range ids {
		l, err := m.st.CreateLog(fw.Ctx(), &solaris.Log{Tags: map[string]string{"g": "in", "n": fmt.Sprint(i)}})
		fw.Must(err)
		ids[i] = l.ID
	}
	mark := c.Rng.Intn(3) > 0
	var mu sync.Mutex
	taken := map[string]int{}
	out := map[string]bool{} // moved out of the group, acknowledged
	var wg sync.WaitGroup
	for w := 0; w < 3; w++ {
		rng := newRand(c.Rng.Int63())
		c.Go(&wg, "deleter", func() {
			for i := 0; i < 8; i++ {
				mu.Lock()
				o := maps.Clone(out)
				mu.Unlock()
				k := rng.Intn(10)
				cond := fmt.Sprintf("tag('g') = 'in' AND tag('n') LIKE '%%%d'", k)
				if rng.Intn(3) == 0 {
					cond = "tag('g') = 'in'"
				}
				if i < 7 && rng.Intn(4) == 0 {
					time.Sleep(time.Duration(rng.Intn(300)) * time.Microsecond)
				}
				r, err := m.st.DeleteLogs(fw.Ctx(), storage.DeleteLogsRequest{Condition: cond, MarkOnly: mark})
				c.Eval(1)
				c.Count("cond-deletes", 1)
				if err != nil {
					c.Fail("cond-delete-failed", "concurrent delete by the condition failed: %v", err)
					return
				}
				mu.Lock()
				for _, id := range r.DeletedIDs {
					taken[id]++
					if taken[id] > 1 {
						c.Fail("deleted-twice", "the log %s is reported to be deleted by two requests", id)
					}
					if o[id] {
						c.Fail("deleted-unmatched", "the log %s doesn't match the condition %q since an update which was acknowledged before, but it is deleted", id, cond)
					}
				}
				c.Distinct("cd", len(r.DeletedIDs), k, i, mark)
				mu.Unlock()
			}
		})
	}
	rng := newRand(c.Rng.Int63())
	c.Go(&wg, "updater", func() {
		for i := 0; i < n/2; i++ {
			id := ids[rng.Intn(n)]
			_, err := m.st.UpdateLog(fw.Ctx(), &solaris.Log{ID: id, Tags: map[string]string{"g": "out"}})
			if err == nil {
				mu.Lock()
				out[id] = true
				mu.Unlock()
			} else if !errors.Is(err, serrors.ErrNotExist) {
				c.Fail("write-error", "update: %v", err)
			}
		}
	})
	var stop atomic.Bool
	var rg sync.WaitGroup
	rng2 := newRand(c.Rng.Int63())
	c.Go(&rg, "reader", func() { // fills the cache
		for !stop.Load() {
			id := ids[rng2.Intn(n)]
			mu.Lock()
			del := taken[id] > 0
			mu.Unlock()
			var err error
			if rng2.Intn(2) == 0 {
				_, err = m.st.GetLogByID(fw.Ctx(), id)
			} else {
				_, err = m.st.GetChunks(fw.Ctx(), id)
			}
			c.Eval(1)
			if err != nil && !errors.Is(err, serrors.ErrNotExist) {
				c.Fail("read-error", "read: %v", err)
			}
			if del && err == nil {
				c.Fail("deleted-visible", "the log %s was reported as deleted before the read started, but the log is there", id)
			}
		}
	})
	wg.Wait()
	stop.Store(true)
	rg.Wait()
	for _, id := range ids {
		_, err := m.st.GetLogByID(fw.Ctx(), id)
		gone := errors.Is(err, serrors.ErrNotExist)
		if gone != (taken[id] > 0) {
			c.Fail("deleted-unmatched", "log %s: gone=%t, but it was reported as deleted %d times, out=%t", id, gone, taken[id], out[id])
		}
		if out[id] && gone {
			// it may match only before the update, but the update then would not be acknowledged
			c.Fail("deleted-unmatched", "log %s was deleted by the condition, but it was moved out of the group while it existed", id)
		}
	}
}
