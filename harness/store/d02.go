package store

import (
	"context"
	"fmt"
	"io"
	"io/fs"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	serrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/pkg/api"
	"github.com/solarisdb/solaris/pkg/storage"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"verif/harness/fw"
	"verif/harness/tcond"
)

const rsRule = "a case is a PRNG-chosen history (1-7 logs over several chunks with records spread over distinct milliseconds) and a batch of PRNG-chosen queries, " +
	"for D03 and D05 some are made while a call to the storage fails or the request is cancelled: the answer is an error (the storage's one) or the right one; " +
	"every answer is compared with the reference selection over the model of acknowledged records; non-trivial: the answer the oracle expects is neither refused nor about an empty history; " +
	"distinct by (configuration, query shape, expected number of records)"

func init() {
	fw.Register(&fw.Prop{ID: "D02", Rule: rsRule, MinEvents: []string{"pages", "records", "multi", "single", "descending"},
		Scens: []fw.Scenario{{Name: "pages", Quick: 160, Thorough: 3000, Run: func(c *fw.Case) { recSetRun(c, d02Query, 14) }}}})
	fw.Register(&fw.Prop{ID: "D03", Rule: rsRule, MinEvents: []string{"merged", "records", "further-pages", "failed-storage", "cancelled", "repeated", "over-64-logs", "1000-logs"},
		Scens: []fw.Scenario{
			{Name: "merge", Quick: 160, Thorough: 3000, Run: func(c *fw.Case) { recSetRun(c, d03Query, 20) }},
			{Name: "many-logs", Quick: 32, Thorough: 400, Run: func(c *fw.Case) { manyLogsRun(c, d03Query, 12) }},
			{Name: "too-many-logs", Quick: 1, Thorough: 4, Run: d03TooMany},
		}})
	fw.Register(&fw.Prop{ID: "D04", Rule: rsRule, MinEvents: []string{"conditions", "records", "invalid", "relative-subset", "relative-repeated", "relative-counts"},
		Scens: []fw.Scenario{
			{Name: "select", Quick: 160, Thorough: 3000, Run: func(c *fw.Case) { recSetRun(c, d04Query, 60) }},
			{Name: "relative", Quick: 24, Thorough: 600, Run: d04Relative},
		}})
	fw.Register(&fw.Prop{ID: "D05", Rule: rsRule, MinEvents: []string{"counts", "matched", "failed-storage"},
		Scens: []fw.Scenario{
			{Name: "count", Quick: 160, Thorough: 3000, Run: func(c *fw.Case) { recSetRun(c, d05Query, 60) }},
			{Name: "many-logs", Quick: 16, Thorough: 200, Run: func(c *fw.Case) { manyLogsRun(c, d05Query, 12) }},
		}})
}

// recSet is a populated stack with its model
type recSet struct {
	s     *stack
	svc   *api.Service
	lids  []string
	tags  map[string]string // log ID -> group tag
	model map[string][]rec
	pts   []time.Time
	all   []rec
	cfg   string
	fault *faultLog
}

// faultLog is the storage of records whose n-th reading call fails
type faultLog struct {
	storage.Log
	lock sync.Mutex
	n    int
	err  error
	hit  bool
}

var faultErrs = []struct {
	err  error
	code codes.Code
}{{serrors.ErrNotExist, codes.NotFound}, {serrors.ErrInvalid, codes.InvalidArgument}, {serrors.ErrExhausted, codes.ResourceExhausted}, {serrors.ErrInternal, codes.Internal},
	{serrors.ErrConflict, codes.FailedPrecondition}, {serrors.ErrDataLoss, codes.DataLoss}, {io.ErrUnexpectedEOF, codes.Internal}, {io.EOF, codes.Internal}, {fs.ErrPermission, codes.PermissionDenied}, {io.ErrShortWrite, codes.Internal}}

// arm makes the n-th call fail, returns what the request must be failed with then
func (f *faultLog) arm(n int, c *fw.Case) (codes.Code, string) {
	f.lock.Lock()
	defer f.lock.Unlock()
	e := faultErrs[c.Rng.Intn(len(faultErrs))]
	f.n, f.hit, f.err = n, false, e.err
	for k := c.Rng.Intn(3); k > 0; k-- {
		f.err = fmt.Errorf("injected %d: %w", k, f.err)
	}
	return e.code, f.err.Error()
}

func (f *faultLog) disarm() bool {
	f.lock.Lock()
	defer f.lock.Unlock()
	f.n = 0
	return f.hit
}

func (f *faultLog) tick() error {
	f.lock.Lock()
	defer f.lock.Unlock()
	if f.n > 0 {
		if f.n--; f.n == 0 {
			f.hit = true
			return f.err
		}
	}
	return nil
}

func (f *faultLog) QueryRecords(ctx context.Context, r storage.QueryRecordsRequest) ([]*solaris.Record, bool, error) {
	if err := f.tick(); err != nil {
		return nil, false, err
	}
	return f.Log.QueryRecords(ctx, r)
}

func (f *faultLog) CountRecords(ctx context.Context, r storage.QueryRecordsRequest) (uint64, uint64, error) {
	if err := f.tick(); err != nil {
		return 0, 0, err
	}
	return f.Log.CountRecords(ctx, r)
}

// failing makes the request while the storage fails or the request is cancelled. It returns true if the request is failed
// as it must be, so there is nothing to check more
func (rs *recSet) failing(c *fw.Case, q *rquery, f func(ctx context.Context) error) bool {
	if c.Rng.Intn(3) == 0 {
		at := c.Rng.Intn(20)
		err := f(fw.CancelAt(at))
		c.Count("cancelled", 1)
		c.Distinct("cancelled", at, err == nil, len(q.lids))
		return err != nil
	}
	n := 1 + c.Rng.Intn(len(q.lids)+3)
	code, text := rs.fault.arm(n, c)
	err := f(fw.Ctx())
	hit := rs.fault.disarm()
	c.Eval(1)
	if err == nil {
		return false // the answer must be right then
	}
	if st := status.Code(err); !hit || st != code {
		c.Fail("wrong-failure", "%s: the storage call #%d fails with %q (it was made: %t), but the request failed with %v, not with %v; cfg=%s", q, n, text, hit, err, code, rs.cfg)
	}
	c.Count("failed-storage", 1)
	c.Distinct("failed", n, len(q.lids), code, q.req.Descending)
	return true
}

func recSetRun(c *fw.Case, q func(c *fw.Case, rs *recSet), n int) {
	cc := genChunkCfg(c)
	lc := genLogCfg(c)
	lc.MaxLocks = 3 + c.Rng.Intn(10)
	sc := stackCfg{Dir: c.Dir(), MaxOpened: 1 + c.Rng.Intn(4), Chunk: cc, Log: lc, Cached: c.Rng.Intn(2) == 0, InMemMeta: true}
	rs := &recSet{s: openStack(sc), model: map[string][]rec{}, tags: map[string]string{}, cfg: fmt.Sprint(sc)}
	defer rs.s.close()
	rs.svc = api.NewService()
	rs.svc.LogsStorage = rs.s.meta
	rs.fault = &faultLog{Log: rs.s.log}
	rs.svc.LogStorage = rs.fault
	nl := pick(c, 1, 2, 3, 4, 5, 7)
	rs.addLogs(c, nl)
	small := min(maxRecSize(cc), 900)
	rounds := pick(c, 4, 10, 25, 25)
	for i := 0; i < rounds; i++ {
		lid := rs.lids[c.Rng.Intn(nl)]
		if len(rs.lids) > 2 && lid == rs.lids[0] && c.Rng.Intn(2) == 0 {
			continue // leaves the log empty sometimes
		}
		k := pick(c, 1, 1, 2, 5, 17)
		if c.Rng.Intn(12) == 0 {
			k = 130
		}
		rs.add(c, lid, k, small, i)
	}
	rs.run(c, q, n)
}

// manyLogsRun - the requests cover tens and hundreds of logs with few records each
func manyLogsRun(c *fw.Case, q func(c *fw.Case, rs *recSet), n int) {
	cc := defChunk()
	lc := genLogCfg(c)
	lc.MaxLocks = 3 + c.Rng.Intn(100)
	sc := stackCfg{Dir: c.Dir(), MaxOpened: 1 + c.Rng.Intn(20), Chunk: cc, Log: lc, Cached: c.Rng.Intn(2) == 0, InMemMeta: true}
	nl := pick(c, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 67, 99, 100, 101, 127, 129, 200)
	if c.Idx%16 == 3 {
		nl = 1000
	}
	rs := &recSet{s: openStack(sc), model: map[string][]rec{}, tags: map[string]string{}, cfg: fmt.Sprintf("%d logs %v", nl, sc)}
	defer rs.s.close()
	rs.svc = api.NewService()
	rs.svc.LogsStorage = rs.s.meta
	rs.fault = &faultLog{Log: rs.s.log}
	rs.svc.LogStorage = rs.fault
	rs.addLogs(c, nl)
	for i := 0; i < nl; i++ {
		if nl == 1000 && i%10 != 0 && i < nl-2 || c.Rng.Intn(10) == 0 {
			continue
		}
		rs.add(c, rs.lids[i], pick(c, 1, 1, 1, 2, 3), 40, i)
	}
	if nl > 64 {
		c.Count("over-64-logs", 1)
	}
	if nl == 1000 {
		c.Count("1000-logs", 1)
		n = 4
	}
	rs.run(c, q, n)
}

func (rs *recSet) addLogs(c *fw.Case, nl int) {
	for i := 0; i < nl; i++ {
		g := pick(c, "a", "b")
		lid := rs.s.newLog(map[string]string{"g": g})
		rs.lids = append(rs.lids, lid)
		rs.tags[lid] = g
	}
}

// add appends k records and puts them into the model
func (rs *recSet) add(c *fw.Case, lid string, k, small, i int) {
	pls := make([][]byte, k)
	for j := range pls {
		pls[j] = genPayload(c, pick(c, small, 40), fmt.Sprintf("%d.%d", i, j))
	}
	ids, added, err := rs.s.append(lid, pls)
	if err != nil || added != k {
		c.Fatal("append-error", "append of %d fitting records: added=%d err=%v cfg=%s", k, added, err, rs.cfg)
	}
	for j := range ids {
		r := rec{ids[j], pls[j]}
		rs.model[lid] = append(rs.model[lid], r)
	}
	if c.Rng.Intn(3) == 0 {
		time.Sleep(time.Duration(c.Rng.Intn(2500)) * time.Microsecond)
	}
}

// run makes the list of the times known and runs n queries
func (rs *recSet) run(c *fw.Case, q func(c *fw.Case, rs *recSet), n int) {
	seen := map[int64]bool{}
	for _, l := range rs.lids {
		for _, r := range rs.model[l] {
			rs.all = append(rs.all, r)
			if ms := r.ms(); !seen[ms] {
				seen[ms] = true
				rs.pts = append(rs.pts, time.UnixMilli(ms))
			}
		}
	}
	sort.Slice(rs.all, func(i, j int) bool { return rs.all[i].id < rs.all[j].id })
	c.Count("history-records", len(rs.all))
	c.Count("history-ms", len(rs.pts))
	for i := 0; i < n && !c.Failed(); i++ {
		q(c, rs)
	}
}

// rquery is one query with its reference answer
type rquery struct {
	req   *solaris.QueryRecordsRequest
	lids  []string
	cond  *tcond.Cond
	want  []mrec
	shape string
}

type mrec struct {
	rec
	lid string
}

func (rs *recSet) genQuery(c *fw.Case, withCond, withStart bool) *rquery {
	q := &rquery{req: &solaris.QueryRecordsRequest{}}
	switch c.Rng.Intn(5) {
	case 0:
		q.lids = []string{rs.lids[c.Rng.Intn(len(rs.lids))]}
		q.req.LogIDs = q.lids
		q.req.LogsCondition = pick(c, "", "tag('g') = 'zzz'") // must be ignored
	case 1:
		p := c.Rng.Perm(len(rs.lids))
		for _, i := range p[:1+c.Rng.Intn(len(p))] {
			q.lids = append(q.lids, rs.lids[i])
		}
		q.req.LogIDs = q.lids
	case 2:
		q.lids = rs.lids
	case 3:
		g := pick(c, "a", "b", "none")
		for _, l := range rs.lids {
			if rs.tags[l] == g {
				q.lids = append(q.lids, l)
			}
		}
		q.req.LogsCondition = fmt.Sprintf("tag(\"g\") = '%s'", g)
	case 4:
		k := min(len(rs.lids), 1+c.Rng.Intn(3))
		q.lids = rs.lids[:k]
		q.req.LogsCondition = "logID IN ['" + strings.Join(q.lids, "', '") + "']"
	}
	q.req.Descending = c.Rng.Intn(2) == 0
	if withCond && c.Rng.Intn(3) > 0 {
		q.cond = genCond(c, rs.pts, c.Rng.Intn(4))
		q.req.Condition = q.cond.Text(c.Rng)
	} else if withCond && c.Rng.Intn(6) == 0 {
		q.req.Condition = pick(c, " ", "\t\n", "   ")
	}
	if withStart && c.Rng.Intn(3) > 0 {
		q.req.StartRecordID = rs.genStart(c)
	}
	q.want = rs.expect(q.lids, q.req.StartRecordID, q.cond, q.req.Descending)
	q.req.Limit = int64(pick(c, 1, 2, 3, 10, 99, 100, 101, 1000, 100000))
	q.shape = fmt.Sprintf("%d/%t/%t/%t/%d/%d", len(q.lids), q.req.Descending, q.cond != nil, q.req.StartRecordID != "", q.req.Limit, len(q.want))
	return q
}

func (rs *recSet) genStart(c *fw.Case) string {
	var u ulid.ULID
	if len(rs.all) > 0 && c.Rng.Intn(8) > 0 {
		id := rs.all[c.Rng.Intn(len(rs.all))].id
		switch c.Rng.Intn(5) {
		case 0:
			id = nextID(id, false)
		case 1:
			id = nextID(id, true)
		case 2:
			u = ulid.MustParse(id)
			_ = u.SetTime(u.Time() + uint64(c.Rng.Intn(3)) - 1)
			id = u.String()
		}
		return id
	}
	switch c.Rng.Intn(4) {
	case 0:
		return u.String()
	case 1:
		for i := range u {
			u[i] = 0xff
		}
		return u.String()
	case 2:
		return ulid.Make().String()
	}
	c.Rng.Read(u[:])
	return u.String()
}

func (rs *recSet) expect(lids []string, start string, cond *tcond.Cond, desc bool) []mrec {
	var res []mrec
	for _, l := range lids {
		for _, r := range rs.model[l] {
			if start != "" && (!desc && r.id < start || desc && r.id > start) {
				continue
			}
			if cond != nil && !cond.Eval(r.time()) {
				continue
			}
			res = append(res, mrec{r, l})
		}
	}
	sort.Slice(res, func(i, j int) bool {
		if desc {
			return res[i].id > res[j].id
		}
		return res[i].id < res[j].id
	})
	return res
}

func (q *rquery) String() string {
	return fmt.Sprintf("query{logs:%d %v lcond:%q cond:%q desc:%t start:%s limit:%d}", len(q.lids), q.req.LogIDs, q.req.LogsCondition, q.req.Condition, q.req.Descending, q.req.StartRecordID, q.req.Limit)
}

func diffRecs(got []*solaris.Record, want []mrec) string {
	g := map[string]int{}
	for _, r := range got {
		g[r.ID]++
	}
	w := map[string]bool{}
	var missing, extra, dups []string
	for _, r := range want {
		w[r.id] = true
		if g[r.id] == 0 {
			missing = append(missing, fmt.Sprintf("%s(%d)", r.id, r.ms()))
		}
	}
	for id, n := range g {
		if !w[id] {
			u := ulid.MustParse(id)
			extra = append(extra, fmt.Sprintf("%s(%d)", id, u.Time()))
		}
		if n > 1 {
			dups = append(dups, id)
		}
	}
	sh := func(a []string) string {
		sort.Strings(a)
		if len(a) > 4 {
			return fmt.Sprintf("%d: %v...", len(a), a[:4])
		}
		return fmt.Sprint(a)
	}
	return fmt.Sprintf("got %d, want %d records; missing %s; extra %s; duplicated %s", len(got), len(want), sh(missing), sh(extra), sh(dups))
}

func sameRecs(c *fw.Case, sig string, q *rquery, got []*solaris.Record, want []mrec, cfg string) bool {
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		ok = got[i].ID == want[i].id
	}
	if !ok {
		c.Fail(sig, "%s: %s; cfg=%s", q, diffRecs(got, want), cfg)
		return false
	}
	for i, r := range got {
		if !checkRec(c, sig+"-content", q.String(), r, want[i].rec, want[i].lid) {
			return false
		}
	}
	return true
}

// D02: following the page IDs gives every matching record exactly once
func d02Query(c *fw.Case, rs *recSet) {
	q := rs.genQuery(c, true, true)
	q.req.Limit = int64(pick(c, 1, 2, 3, 7, 50, 100, 1000))
	if len(q.want) > 300 && q.req.Limit < 7 {
		q.req.Limit = 50
	}
	var got []*solaris.Record
	pages := 0
	for {
		pages++
		res, err := rs.svc.QueryRecords(fw.Ctx(), q.req)
		if err != nil {
			c.Fail("query-error", "%s page %d failed: %v; cfg=%s", q, pages, err, rs.cfg)
			return
		}
		if int64(len(res.Records)) > q.req.Limit {
			c.Fail("limit-exceeded", "%s returned %d records", q, len(res.Records))
			return
		}
		got = append(got, res.Records...)
		if res.NextPageID == "" {
			break
		}
		if pages > len(q.want)+5 {
			c.Fail("pagination-endless", "%s: %d pages are read for %d records; cfg=%s", q, pages, len(q.want), rs.cfg)
			return
		}
		q.req.StartRecordID = res.NextPageID
	}
	sameRecs(c, "pages-mismatch", q, got, q.want, rs.cfg)
	c.Eval(1)
	c.Count("pages", pages)
	c.Count("records", len(got))
	if len(q.lids) > 1 {
		c.Count("multi", 1)
	} else {
		c.Count("single", 1)
	}
	if q.req.Descending {
		c.Count("descending", 1)
	}
	if len(q.want) > 0 {
		c.Distinct(q.shape, pages)
	}
	c.Sample("%s -> %d records in %d pages", q, len(got), pages)
}

// D03: several logs: the answer is the leading part of the ordered union
func d03Query(c *fw.Case, rs *recSet) {
	q := rs.genQuery(c, c.Rng.Intn(3) == 0, c.Rng.Intn(2) == 0)
	if len(q.lids) < 2 {
		return
	}
	if len(q.req.LogIDs) > 1 && c.Rng.Intn(3) == 0 {
		d03Repeated(c, rs, q)
		return
	}
	if c.Rng.Intn(4) == 0 {
		var res *solaris.QueryRecordsResult
		if !rs.failing(c, q, func(ctx context.Context) (err error) {
			res, err = rs.svc.QueryRecords(ctx, q.req)
			return err
		}) {
			sameRecs(c, "partial-merge", q, res.Records, q.want[:min(int64(len(q.want)), max(q.req.Limit, 0))], rs.cfg)
		}
		return
	}
	var want []mrec
	req := &solaris.QueryRecordsRequest{LogIDs: q.req.LogIDs, LogsCondition: q.req.LogsCondition, Condition: q.req.Condition,
		StartRecordID: q.req.StartRecordID, Descending: q.req.Descending, Limit: q.req.Limit}
	rest := q.want
	for pg := 0; pg < 6; pg++ {
		res, err := rs.svc.QueryRecords(fw.Ctx(), req)
		if err != nil {
			c.Fail("query-error", "%s page %d failed: %v; cfg=%s", q, pg, err, rs.cfg)
			return
		}
		want = rest
		if int64(len(want)) > q.req.Limit {
			want = want[:q.req.Limit]
			if res.NextPageID == "" {
				c.Fail("no-next-page", "%s: there are %d matching records, no next page ID after the page %d", q, len(q.want), pg)
			}
		}
		sameRecs(c, "merge-mismatch", q, res.Records, want, rs.cfg)
		rest = rest[len(want):]
		if len(rest) == 0 || len(want) == 0 || c.Failed() {
			break
		}
		req.StartRecordID = res.NextPageID
		if pg > 0 {
			c.Count("further-pages", 1)
		}
	}
	c.Eval(1)
	c.Count("merged", 1)
	c.Count("records", len(q.want)-len(rest))
	if len(q.want) > 0 {
		c.Distinct(q.shape)
	}
	c.Sample("%s -> %d records", q, len(q.want))
}

// d03Repeated - the list of the logs names some of them several times. It is up to the implementation whether the records of
// such a log are given several times, or the request is refused, but no records may be lost and the order must be kept
func d03Repeated(c *fw.Case, rs *recSet, q *rquery) {
	mult := map[string]int{}
	ids := append([]string{}, q.lids...)
	if len(ids) > 2 && c.Rng.Intn(2) == 0 {
		ids = ids[:2+c.Rng.Intn(len(ids)-2)]
		q.want = rs.expect(ids, q.req.StartRecordID, q.cond, q.req.Descending)
	}
	uniq := len(ids)
	for k := 1 + c.Rng.Intn(3); k > 0; k-- {
		ids = append(ids, ids[c.Rng.Intn(len(ids))])
	}
	if c.Rng.Intn(3) > 0 {
		at := c.Rng.Intn(uniq) // one of the first and the last one are the same often
		ids[len(ids)-1] = ids[at]
		ids[0], ids[at] = ids[at], ids[0]
	} else {
		c.Rng.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	}
	if len(ids) > 1000 {
		return
	}
	for _, id := range ids {
		mult[id]++
	}
	q.req.LogIDs = ids
	res, err := rs.svc.QueryRecords(fw.Ctx(), q.req)
	c.Eval(1)
	if err != nil {
		if code := status.Code(err); code != codes.InvalidArgument {
			c.Fail("query-error", "%s with repeated log IDs failed: %v; cfg=%s", q, err, rs.cfg)
		}
		return
	}
	got := map[string]int{}
	for i, r := range res.Records {
		got[r.ID]++
		if i > 0 && (!q.req.Descending && r.ID < res.Records[i-1].ID || q.req.Descending && r.ID > res.Records[i-1].ID) {
			c.Fail("merge-mismatch", "%s with repeated log IDs is not ordered at %d; cfg=%s", q, i, rs.cfg)
			return
		}
	}
	if int64(len(res.Records)) > q.req.Limit {
		c.Fail("merge-mismatch", "%s with repeated log IDs returned %d records; cfg=%s", q, len(res.Records), rs.cfg)
	}
	known, end := 0, ""
	if n := len(res.Records); n > 0 {
		end = res.Records[n-1].ID
	}
	full := int64(len(res.Records)) < q.req.Limit
	for _, r := range q.want {
		k := got[r.id]
		if k > 0 {
			known += k
		}
		before := full || r.id < end && !q.req.Descending || r.id > end && q.req.Descending
		if k > mult[r.lid] || k == 0 && before {
			c.Fail("merge-mismatch", "%s with repeated log IDs: the record %s of %s, which is named %d times, is returned %d times; %s; cfg=%s", q, r.id, r.lid, mult[r.lid], k, diffRecs(res.Records, q.want), rs.cfg)
			return
		}
	}
	if known != len(res.Records) {
		c.Fail("merge-mismatch", "%s with repeated log IDs: unexpected records: %s; cfg=%s", q, diffRecs(res.Records, q.want), rs.cfg)
	}
	c.Count("repeated", 1)
	if len(q.want) > 0 {
		c.Distinct("repeated", len(ids), uniq, q.shape)
	}
}

// D03: the request, which covers more logs than may be merged must be refused, but not answered partially
func d03TooMany(c *fw.Case) {
	lc := genLogCfg(c)
	lc.MaxLocks = 100
	sc := stackCfg{Dir: c.Dir(), MaxOpened: 3, Chunk: defChunk(), Log: lc, InMemMeta: true}
	s := openStack(sc)
	defer s.close()
	svc := api.NewService()
	svc.LogsStorage, svc.LogStorage = s.meta, s.log
	last := ""
	n := 1001 + c.Rng.Intn(3)
	ids := make([]string, n)
	for i := range ids {
		last = s.newLog(nil)
		ids[i] = last
	}
	rids, _, err := s.append(last, [][]byte{[]byte("x")})
	fw.Must(err)
	for _, lst := range [][]string{nil, ids} {
		req := &solaris.QueryRecordsRequest{LogIDs: lst, Limit: 10}
		res, err := svc.QueryRecords(fw.Ctx(), req)
		if err == nil && (len(res.Records) != 1 || res.Records[0].ID != rids[0]) {
			c.Fail("partial-merge", "a query over %d logs (explicit list: %t) silently missed the records of some logs: %d records are returned, 1 expected", n, lst != nil, len(res.Records))
		}
		cr, err := svc.CountRecords(fw.Ctx(), req)
		if err == nil && (cr.Count != 1 || cr.Total != 1) {
			c.Fail("partial-count", "a count over %d logs (explicit list: %t) silently missed the records of some logs: %v", n, lst != nil, cr)
		}
		c.Eval(2)
	}
	c.Distinct("too-many", n)
}

// D04: the selection is exact
func d04Query(c *fw.Case, rs *recSet) {
	if c.Rng.Intn(10) == 0 {
		d04Invalid(c, rs)
		return
	}
	q := rs.genQuery(c, true, true)
	q.req.Limit = 1 << 30
	if q.cond != nil && c.Rng.Intn(2) == 0 {
		// both the chunk and record bounds matter for one log the most
		q.lids = []string{rs.lids[c.Rng.Intn(len(rs.lids))]}
		q.req.LogIDs = q.lids
		q.want = rs.expect(q.lids, q.req.StartRecordID, q.cond, q.req.Descending)
	}
	var got []*solaris.Record
	req := q.req
	for pages := 0; ; pages++ {
		// one request can return fewer records than requested because of the size limits
		res, err := rs.svc.QueryRecords(fw.Ctx(), req)
		if err != nil {
			c.Fail("query-error", "%s failed: %v; cfg=%s", q, err, rs.cfg)
			return
		}
		got = append(got, res.Records...)
		if len(res.Records) == 0 || len(got) > len(q.want) {
			break
		}
		req = &solaris.QueryRecordsRequest{LogIDs: req.LogIDs, LogsCondition: req.LogsCondition, Condition: req.Condition,
			Descending: req.Descending, Limit: req.Limit, StartRecordID: nextID(res.Records[len(res.Records)-1].ID, req.Descending)}
	}
	sameRecs(c, "select-mismatch", q, got, q.want, rs.cfg)
	c.Eval(1)
	if q.cond != nil {
		c.Count("conditions", 1)
	}
	c.Count("records", len(q.want))
	if len(q.want) > 0 && len(q.want) < len(rs.all) {
		c.Count("proper-subset", 1)
	}
	c.Distinct(q.shape, q.req.Condition)
	c.Sample("%s -> %d of %d records", q, len(q.want), len(rs.all))
}

func d04Invalid(c *fw.Case, rs *recSet) {
	req := &solaris.QueryRecordsRequest{LogIDs: []string{rs.lids[c.Rng.Intn(len(rs.lids))]}, Limit: 10}
	if len(rs.lids) > 1 && c.Rng.Intn(2) == 0 {
		req.LogIDs = rs.lids[:2]
	}
	hasData := false
	for _, l := range req.LogIDs {
		if len(rs.model[l]) > 0 {
			hasData = true
		}
	}
	if !hasData {
		return
	}
	switch c.Rng.Intn(3) {
	case 0:
		req.Condition = pick(c, "ctime >", "ctime > 'yesterday-ish'", "abc = 'x'", "ctime > '1' AND", "((ctime < '1')", "lala", "ctime > ctime", "'a' = 'b'", "ctime > 12", "ctime > ['a']")
	case 1:
		req.StartRecordID = pick(c, "x", "01HZZZZZZZZZZZZZZZZZZZZZZ", "!!", "01HZZZZZZZZZZZZZZZZZZZZZZZZ", "ZZZZZZZZZZZZZZZZZZZZZZZZZZ")
	case 2:
		req.LogIDs = nil
		req.LogsCondition = pick(c, "tag('a') =", "lala = 'x'", "tag(a) = 'b'", "logID", "tag('a') in 'a'")
	}
	call := func() (string, error) {
		if c.Rng.Intn(2) == 0 {
			_, err := rs.svc.QueryRecords(fw.Ctx(), req)
			return "QueryRecords", err
		}
		_, err := rs.svc.CountRecords(fw.Ctx(), req)
		return "CountRecords", err
	}
	what, err := call()
	if st, _ := status.FromError(err); st.Code() != codes.InvalidArgument {
		c.Fail("invalid-not-refused", "%s with the wrong condition=%q, start=%q, logsCondition=%q is answered with %v, but not with InvalidArgument", what, req.Condition, req.StartRecordID, req.LogsCondition, err)
	}
	c.Eval(1)
	c.Count("invalid", 1)
}

// D05: the counters agree with the records
func d05Query(c *fw.Case, rs *recSet) {
	q := rs.genQuery(c, true, true)
	var res *solaris.CountResult
	count := func(ctx context.Context) (err error) {
		res, err = rs.svc.CountRecords(ctx, q.req)
		return err
	}
	if c.Rng.Intn(6) == 0 && len(q.lids) > 0 {
		if rs.failing(c, q, count) {
			return
		}
	} else if err := count(fw.Ctx()); err != nil {
		c.Fail("count-error", "%s failed: %v; cfg=%s", q, err, rs.cfg)
		return
	}
	total := 0
	for _, l := range q.lids {
		total += len(rs.model[l])
	}
	if res.Total != int64(total) {
		c.Fail("total-mismatch", "%s: total=%d, but there are %d records in the logs; cfg=%s", q, res.Total, total, rs.cfg)
	}
	if res.Count != int64(len(q.want)) {
		c.Fail("count-mismatch", "%s: count=%d, but %d records match; cfg=%s", q, res.Count, len(q.want), rs.cfg)
	}
	c.Eval(1)
	c.Count("counts", 1)
	c.Count("matched", len(q.want))
	if total > 0 {
		c.Distinct(q.shape, q.req.Condition)
	}
	c.Sample("%s -> total %d count %d", q, total, len(q.want))
}
