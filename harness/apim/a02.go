package apim

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"sync"

	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	serrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/pkg/storage/cache"
	"verif/harness/fw"
)

func init() {
	fw.Register(&fw.Prop{
		ID: "A02",
		Rule: "kinds: requests which must fail for a known reason (unknown or deleted log, malformed condition or start ID, oversized record, too many logs, malformed body, parameter or content type, " +
			"metadata storage failing with an error of a known class) over gRPC and REST; the status must tell that reason in both, and the data must stay as it was. Distinct by the request, the reason and the protocol",
		MinEvents: []string{"gRPC", "REST", "raw", "injected", "intact"},
		Scens: []fw.Scenario{
			{Name: "kinds", Quick: 320, Thorough: 3000, Run: a02Kinds},
		},
	})
}

// failing is the metadata storage which fails if it is told to
type failing struct {
	cache.LogsChunksMetaStorage
	lock sync.Mutex
	err  error
}

func (f *failing) set(err error) {
	f.lock.Lock()
	f.err = err
	f.lock.Unlock()
}

func (f *failing) get() error {
	f.lock.Lock()
	defer f.lock.Unlock()
	return f.err
}

func (f *failing) CreateLog(ctx context.Context, log *solaris.Log) (*solaris.Log, error) {
	if err := f.get(); err != nil {
		return nil, err
	}
	return f.LogsChunksMetaStorage.CreateLog(ctx, log)
}

func (f *failing) UpdateLog(ctx context.Context, log *solaris.Log) (*solaris.Log, error) {
	if err := f.get(); err != nil {
		return nil, err
	}
	return f.LogsChunksMetaStorage.UpdateLog(ctx, log)
}

func (f *failing) QueryLogs(ctx context.Context, qr storage.QueryLogsRequest) (*solaris.QueryLogsResult, error) {
	if err := f.get(); err != nil {
		return nil, err
	}
	return f.LogsChunksMetaStorage.QueryLogs(ctx, qr)
}

func (f *failing) DeleteLogs(ctx context.Context, r storage.DeleteLogsRequest) (*solaris.DeleteLogsResult, error) {
	if err := f.get(); err != nil {
		return nil, err
	}
	return f.LogsChunksMetaStorage.DeleteLogs(ctx, r)
}

func a02Kinds(c *fw.Case) {
	r := c.Rng
	o := genOpts(c)
	fl := &failing{}
	o.wrap = func(m cache.LogsChunksMetaStorage) cache.LogsChunksMetaStorage {
		fl.LogsChunksMetaStorage = m
		return fl
	}
	s := start(c, o)
	defer s.stop()
	m := newModel(c, s)
	for i := 0; i < 3; i++ {
		m.create()
	}
	live := m.ids()
	for _, id := range live {
		pls := []string{"one " + id, "", "three"}
		if n, k := m.cl().appendRecs(id, pls); n != 3 || k != "" {
			c.Fatal("append-result", "3 records: %d are appended: %q", n, k)
		}
		m.logs[id].recs = pls
	}
	if c.Failed() {
		return
	}
	dead, k := m.cls[0].createLog(map[string]string{"a": "dead"})
	if n, k2 := m.cls[1].deleteLogs("logID = '" + dead.ID + "'"); k != "" || k2 != "" || n != 1 {
		c.Fatal("delete-result", "a new log is created (%q) and deleted (%q): %d logs", k, k2, n)
	}
	unknown := func() string {
		return pick(r, dead.ID, ulid.Make().String(), "nolog", "a b", strings.ToLower(live[0]), live[0]+" ", "../"+live[0], strings.Repeat("Z", 300),
			fmt.Sprintf("%%%02X%s", live[0][0], live[0][1:]), "a%20b", "50%", "a+b", "%zz")
	}
	expect := func(cl client, what, why, got, want string) {
		c.Eval(1)
		c.Count(cl.name(), 1)
		c.Distinct(cl.name(), what, why, want)
		if got != want && !(want == "internal" && strings.HasPrefix(got, "internal(")) {
			c.Fail("kind:"+cl.name()+":"+what+":"+want, "%s %s (%s): the outcome is %q, expected %q", cl.name(), what, why, got, want)
		}
	}
	badLogsCond := func() string {
		t := m.gen.Text(m.gen.Cond())
		return pick(r, "tag(", "foo = 'x'", "logID ==", "tag('a') ~ 'x'", "'", t+")", "("+t, t+" and", "not", "or "+t, "tag('a') = ", t+" "+t, "tag('a') in 'x'", "tag() = 'x'", "\x01")
	}
	badRecsCond := func() string {
		return pick(r, "ctime >", "ctime > 'abc'", "ctime ~ '2024-01-01 00:00:00'", "(ctime > '2024-01-01 00:00:00'", "ctime > '2024-01-01 00:00:00')", "not", "ctime", "'",
			"ctime > '2024-01-01 00:00:00' and", "ctime = '2024-13-01 00:00:00'", "or")
	}
	for n := 30 + r.Intn(20); n > 0 && !c.Failed(); n-- {
		cl := m.cls[r.Intn(2)]
		switch r.Intn(9) {
		case 0:
			id := unknown()
			if r.Intn(2) == 0 {
				_, k := cl.updateLog(id, map[string]string{"a": "x"})
				expect(cl, "update", "unknown log "+id, k, "notexist")
			} else {
				_, k := cl.appendRecs(id, [][]string{{"x"}, {"x", ""}, {}}[r.Intn(3)])
				expect(cl, "append", "unknown log "+id, k, "notexist")
			}
		case 1:
			cond := badLogsCond()
			switch r.Intn(3) {
			case 0:
				_, k := cl.queryLogs(cond, "", ptr(5))
				expect(cl, "query logs", cond, k, "invalid")
			case 1:
				_, k := cl.deleteLogs(cond)
				expect(cl, "delete logs", cond, k, "invalid")
			case 2:
				_, k := cl.queryRecs(recQuery{LogsCond: cond, Limit: ptr(5)})
				expect(cl, "query records", "logs "+cond, k, "invalid")
			}
		case 2:
			q := recQuery{Cond: badRecsCond(), Limit: ptr(1 + r.Intn(10)), Desc: r.Intn(2) == 0, IDs: live[:1+r.Intn(3)]}
			if r.Intn(3) == 0 {
				q.IDs = nil
			}
			_, k := cl.queryRecs(q)
			expect(cl, "query records", q.Cond, k, "invalid")
		case 3:
			q := recQuery{Start: pick(r, "x", "0", live[0]+"0", strings.Repeat("0", 25), strings.Repeat("*", 27), "start"), Limit: ptr(1 + r.Intn(10)), Desc: r.Intn(2) == 0, IDs: live[:1+r.Intn(3)]}
			_, k := cl.queryRecs(q)
			expect(cl, "query records", fmt.Sprintf("start %q of %d logs", q.Start, len(q.IDs)), k, "invalid")
		case 4:
			q := recQuery{Limit: ptr(5)}
			for i := 1001 + r.Intn(100); i > 0; i-- {
				q.IDs = append(q.IDs, live[0])
			}
			_, k := cl.queryRecs(q)
			expect(cl, "query records", "too many logs", k, "exhausted")
		case 5:
			_, k := cl.appendRecs(live[r.Intn(3)], []string{strings.Repeat("x", m.big+r.Intn(9000)), "second"})
			expect(cl, "append", "oversized record", k, "invalid")
		case 6, 7:
			rc := m.cls[1].(*restCli)
			what, want, got := rc.raw(m, live[r.Intn(3)])
			c.Count("raw", 1)
			expect(rc, "raw", what, got, want)
		case 8:
			cls := []struct {
				err  error
				kind string
			}{{serrors.ErrNotExist, "notexist"}, {serrors.ErrInvalid, "invalid"}, {serrors.ErrConflict, "conflict"}, {serrors.ErrExist, "conflict"}, {serrors.ErrExhausted, "exhausted"},
				{serrors.ErrInternal, "internal"}, {serrors.ErrDataLoss, "internal"}, {serrors.ErrClosed, "internal"}, {serrors.ErrCommunication, "internal"}, {errors.New("boom"), "internal"}}
			f := cls[r.Intn(len(cls))]
			err := f.err
			for i := r.Intn(3); i > 0; i-- {
				err = fmt.Errorf("level %d: %w", i, err)
			}
			fl.set(err)
			var k string
			what := ""
			switch r.Intn(5) {
			case 0:
				what = "create"
				_, k = cl.createLog(map[string]string{"a": "x"})
			case 1:
				what = "update"
				_, k = cl.updateLog(live[0], map[string]string{"a": "x"})
			case 2:
				what = "query logs"
				_, k = cl.queryLogs("", "", nil)
			case 3:
				what = "delete logs"
				_, k = cl.deleteLogs("logID = '" + live[0] + "'")
			case 4:
				what = "query records"
				_, k = cl.queryRecs(recQuery{Limit: ptr(5)})
			}
			fl.set(nil)
			c.Count("injected", 1)
			expect(cl, what, "storage failed: "+err.Error(), k, f.kind)
		}
	}
	// nothing of that changed anything
	p, k := m.cls[r.Intn(2)].queryLogs("", "", ptr(100))
	if k != "" || len(p.Logs) != 3 || p.Total != 3 {
		c.Fail("not-intact", "after the failed requests: %d logs, the total %d (%q), expected 3", len(p.Logs), p.Total, k)
	}
	for _, l := range p.Logs {
		if ml := m.logs[l.ID]; ml == nil || fmt.Sprint(ml.tags) != fmt.Sprint(l.Tags) {
			c.Fail("not-intact", "after the failed requests the log is %+v", l)
		} else if m.learn(ml) {
			c.Count("intact", 1)
		}
	}
}

// raw sends a malformed HTTP request, returns what it is, the expected kind and the kind
func (rc *restCli) raw(m *amodel, id string) (string, string, string) {
	r := m.r
	type ep struct{ method, path, good string }
	e := pick(r, ep{"POST", "/v1/logs", `{"tags":{"a":"x"}}`}, ep{"PUT", "/v1/logs/" + id, `{"tags":{"a":"x"}}`}, ep{"DELETE", "/v1/logs", `{"filterCondition":"logID = '` + id + `'"}`},
		ep{"POST", "/v1/logs/" + id + "/records", `{"records":[{"payload":"eHl6"}]}`})
	ct, body, what, want := "application/json", e.good, "", "invalid"
	switch r.Intn(6) {
	case 0:
		what, ct = "content type", pick(r, "", "text/plain", "application/xml", "application/x-www-form-urlencoded", "multipart/form-data; boundary=x", "json")
	case 1:
		what, body = "truncated body", body[:r.Intn(len(body))]
	case 2:
		what, body = "not JSON", pick(r, "", "x", "{", "[}", "\x00", "{'tags':{}}", "nul", strings.Repeat("[", 100000))
	case 3:
		what, body = "wrong type", pick(r, `[]`, `"x"`, `1`, `{"tags":1,"filterCondition":1,"records":1}`, `{"tags":{"a":1},"filterCondition":{},"records":{}}`, `{"tags":[],"filterCondition":[],"records":[1]}`,
			`{"tags":"x","filterCondition":true,"records":[{"payload":1}]}`, `{"tags":{"a":{}},"filterCondition":[1],"records":[{"payload":"not base64!"}]}`)
	case 4:
		what = "bad parameter"
		e.method, body, ct = "GET", "", ""
		e.path = pick(r, "/v1/logs?limit=abc", "/v1/records?limit=abc", "/v1/records?desc=maybe", "/v1/logs?limit=1.5", "/v1/records?limit=99999999999999999999", "/v1/logs?limit=", "/v1/records?desc=")
		if strings.HasSuffix(e.path, "=") {
			want = "any" // whether an empty value is allowed is not specified
		}
	case 5:
		what, want = "no such endpoint", "notexist"
		switch r.Intn(3) {
		case 0:
			e.path = pick(r, "/", "/v2/logs", "/v1/log", "/v1/logs/"+id+"/nosuch", "/v1/records/"+id, "/v1/logs/a/b/records")
		case 1:
			e.method = pick(r, "PATCH", "OPTIONS", "BREW")
		case 2:
			e.path, e.method = "/v1/logs/"+id, pick(r, "GET", "DELETE", "POST")
		}
	}
	rq, err := http.NewRequest(e.method, rc.url+e.path, bytes.NewReader([]byte(body)))
	fw.Must(err)
	if ct != "" {
		rq.Header.Set("Content-Type", ct)
	}
	what += ": " + e.method + " " + e.path + " " + ct
	rs, err := rc.hc.Do(rq)
	if err != nil {
		rc.c.Fail("rest-broken", "REST %s: %v", what, err)
		return what, want, want
	}
	defer rs.Body.Close()
	_, _ = io.Copy(io.Discard, rs.Body)
	got := fmt.Sprint(rs.StatusCode)
	switch rs.StatusCode {
	case 400, 415, 422:
		got = "invalid"
	case 404, 405:
		got = "notexist"
	}
	if want == "any" {
		want = got
		if rs.StatusCode >= 500 {
			want = "invalid"
		}
	}
	return what, want, got
}
