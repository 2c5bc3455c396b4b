package apim

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/health/grpc_health_v1"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/types/known/timestamppb"
	"verif/harness/fw"
)

func init() {
	fw.Register(&fw.Prop{
		ID: "A01",
		Rule: "hostile: random gRPC requests with hostile fields (IDs, conditions, borders of numbers, times, sizes), garbage messages and methods, and raw HTTP requests (methods, paths, headers, bodies, " +
			"broken off), from 1-4 clients at once; no handler panics, every request is answered or refused in time, the logs the requests don't name stay intact, no file appears outside of the storage folders, " +
			"and the server keeps serving. Distinct by the kind of the request and the outcome",
		MinEvents: []string{"grpc", "raw-grpc", "http", "raw-http", "accepted", "refused", "witness"},
		Scens: []fw.Scenario{
			{Name: "hostile", Quick: 56, Thorough: 2500, Run: a01Hostile},
		},
	})
}

// rawCodec sends bytes as they are
type rawCodec struct{}

func (rawCodec) Marshal(v any) ([]byte, error) { return v.([]byte), nil }
func (rawCodec) Unmarshal(d []byte, v any) error {
	*v.(*[]byte) = append([]byte(nil), d...)
	return nil
}
func (rawCodec) Name() string { return "proto" }

type hostile struct {
	c    *fw.Case
	r    *rand.Rand
	m    *amodel
	s    *srv
	play []string // logs which may be changed
	dead string
	recs []string // record IDs
	wit  []string // witness logs
}

func (h *hostile) str(n int) string {
	b := make([]rune, h.r.Intn(n))
	for i := range b {
		b[i] = pick(h.r, 'a', '\'', '"', '(', ')', '%', '\\', '/', '.', 0, ' ', '\n', 'é', '名', 0x1F600, 0xFFFD, '{', '[', rune(h.r.Intn(128)))
	}
	return string(b)
}

func (h *hostile) logID() string {
	switch h.r.Intn(6) {
	case 0:
		return pick(h.r, "", "x", "../../etc/passwd", "..", "/", "a/b", h.dead, strings.Repeat("7", 26), strings.Repeat("Z", 26), strings.Repeat("0", 26), strings.Repeat("x", 100000), "\x00", strings.ToLower(h.play[0]))
	case 1:
		return ulid.Make().String()
	case 2:
		return h.str(40)
	}
	return h.play[h.r.Intn(len(h.play))]
}

func (h *hostile) recID() string {
	switch h.r.Intn(5) {
	case 0:
		return ""
	case 1:
		return pick(h.r, strings.Repeat("7", 26), "7"+strings.Repeat("Z", 25), "8"+strings.Repeat("0", 25), strings.Repeat("Z", 26), strings.Repeat("0", 26), strings.Repeat("0", 25), "u", strings.Repeat("\xc3\xa9", 13))
	case 2:
		return h.str(40)
	}
	id := h.recs[h.r.Intn(len(h.recs))]
	if h.r.Intn(4) == 0 {
		b := []byte(id)
		b[h.r.Intn(26)] = byte(pick(h.r, '0', 'Z', 'I', 'l', 'u', '*'))
		return string(b)
	}
	return id
}

func (h *hostile) limit() int64 {
	return pick[int64](h.r, 0, 1, -1, 2, 5, 50, 1000, 1001, 10000, 1<<31-1, 1<<31, math.MaxInt64, math.MinInt64, math.MinInt32, -1000)
}

func (h *hostile) mutate(s string) string {
	b := []byte(s)
	for n := h.r.Intn(4); n > 0 && len(b) > 0; n-- {
		i := h.r.Intn(len(b))
		switch h.r.Intn(4) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1:
			b[i] = byte(h.r.Intn(128))
		case 2:
			b = append(b[:i], append([]byte(pick(h.r, "(", ")", "'", "not ", " and ", "%", "[")), b[i:]...)...)
		case 3:
			b = append(b, b[i:]...)
		}
	}
	return strings.ToValidUTF8(string(b), "?")
}

func (h *hostile) logsCond() string {
	switch h.r.Intn(6) {
	case 0:
		return ""
	case 1:
		return h.str(60)
	case 2:
		return strings.Repeat("(", 3000) + "logID='x'" + strings.Repeat(")", pick(h.r, 3000, 2999))
	case 3:
		return strings.Repeat("not ", 2000) + "logID='x'"
	}
	m := *h.m
	m.gen.R = h.r
	return h.mutate(m.gen.Text(m.gen.Cond()))
}

// delCond never selects a witness
func (h *hostile) delCond() string {
	if h.r.Intn(3) > 0 {
		return h.mutate(h.play[0]) // not a condition
	}
	return "logID = '" + pick(h.r, h.play[1:]...) + "' and tag('role') = 'play'"
}

func (h *hostile) recsCond() string {
	switch h.r.Intn(6) {
	case 0:
		return ""
	case 1:
		return h.str(60)
	case 2:
		return "ctime > '" + pick(h.r, "", "0", "-1", "9223372036854775807", "9223372036854775808", "99999999999999999999999", "0001-01-01 00:00:00", "9999-12-31 23:59:59", "minute", "day", "-292years",
			"100000000000h", "1e400", "NaN", "2024-01-01T00:00:00+99:99") + "'"
	}
	op := pick(h.r, "<", ">", "<=", ">=", "=", "!=")
	return h.mutate(fmt.Sprintf("ctime %s '%d' or not (ctime > '2024-01-01 00:00:00')", op, time.Now().UnixNano()))
}

func (h *hostile) payload() []byte {
	b := make([]byte, pick(h.r, 0, 1, h.r.Intn(100), h.r.Intn(100), h.m.big, 3*h.m.big))
	h.r.Read(b)
	return b
}

func (h *hostile) ts() *timestamppb.Timestamp {
	switch h.r.Intn(4) {
	case 0:
		return nil
	case 1:
		return &timestamppb.Timestamp{Seconds: pick[int64](h.r, math.MaxInt64, math.MinInt64, -1, 0), Nanos: pick(h.r, int32(math.MaxInt32), int32(math.MinInt32), int32(-1))}
	}
	return timestamppb.New(time.Unix(h.r.Int63n(1<<33), 0))
}

func (h *hostile) query() *solaris.QueryRecordsRequest {
	q := &solaris.QueryRecordsRequest{Condition: h.recsCond(), Descending: h.r.Intn(2) == 0, StartRecordID: h.recID(), Limit: h.limit()}
	if h.r.Intn(3) > 0 {
		q.Condition = ""
	}
	if h.r.Intn(2) == 0 {
		q.LogsCondition = h.logsCond()
	} else {
		for n := h.r.Intn(5); n >= 0; n-- {
			q.LogIDs = append(q.LogIDs, h.logID())
		}
	}
	return q
}

func (h *hostile) outcome(what string, err error) {
	h.c.Eval(1)
	if err == nil {
		h.c.Count("accepted", 1)
	} else {
		h.c.Count("refused", 1)
	}
	st := status.Code(err)
	h.c.Distinct(what, st)
	switch st {
	case codes.DeadlineExceeded:
		h.c.Fail("hangs:"+what, "gRPC %s: no answer in %v\n%s", what, inTime, fw.Stacks())
	case codes.Unavailable:
		h.c.Fail("unavailable:"+what, "gRPC %s: %v", what, err)
	}
}

func (h *hostile) grpc(cl solaris.ServiceClient) {
	ctx, cf := context.WithTimeout(context.Background(), inTime)
	defer cf()
	h.c.Count("grpc", 1)
	var err error
	tags := map[string]string{"role": "play"}
	for n := h.r.Intn(4); n > 0; n-- {
		tags[strings.ReplaceAll(h.str(20), "role", "")] = h.str(200)
	}
	tags["role"] = "play"
	switch h.r.Intn(8) {
	case 0:
		_, err = cl.CreateLog(ctx, &solaris.Log{ID: h.logID(), Tags: tags, CreatedAt: h.ts(), UpdatedAt: h.ts()})
		h.outcome("CreateLog", err)
	case 1:
		_, err = cl.UpdateLog(ctx, &solaris.Log{ID: h.logID(), Tags: tags, CreatedAt: h.ts(), UpdatedAt: h.ts()})
		h.outcome("UpdateLog", err)
	case 2:
		_, err = cl.QueryLogs(ctx, &solaris.QueryLogsRequest{Condition: h.logsCond(), PageID: pick(h.r, "", h.logID(), h.recID()), Limit: h.limit()})
		h.outcome("QueryLogs", err)
	case 3:
		_, err = cl.DeleteLogs(ctx, &solaris.DeleteLogsRequest{Condition: h.delCond()})
		h.outcome("DeleteLogs", err)
	case 4, 5:
		rq := &solaris.AppendRecordsRequest{LogID: h.logID(), ExpandIDs: h.r.Intn(2) == 0}
		for n := h.r.Intn(5); n > 0; n-- {
			rq.Records = append(rq.Records, &solaris.Record{ID: h.recID(), LogID: h.logID(), CreatedAt: h.ts(), Payload: h.payload()})
		}
		if h.r.Intn(5) == 0 {
			rq.Records = append(rq.Records, &solaris.Record{})
		}
		_, err = cl.AppendRecords(ctx, rq)
		h.outcome("AppendRecords", err)
	case 6:
		_, err = cl.QueryRecords(ctx, h.query())
		h.outcome("QueryRecords", err)
	case 7:
		_, err = cl.CountRecords(ctx, h.query())
		h.outcome("CountRecords", err)
	}
}

// rawGrpc sends garbage messages to random methods
func (h *hostile) rawGrpc(cn *grpc.ClientConn) {
	ctx, cf := context.WithTimeout(context.Background(), inTime)
	defer cf()
	h.c.Count("raw-grpc", 1)
	b := make([]byte, pick(h.r, 0, 1, h.r.Intn(20), h.r.Intn(2000)))
	h.r.Read(b)
	m := pick(h.r, "UpdateLog", "QueryLogs", "AppendRecords", "QueryRecords", "CountRecords", "NoSuch", "")
	svc := pick(h.r, "/solaris.v1.Service/", "/solaris.v1.Service/", "/solaris.v1.Service/", "/no.Such/", "/", "")
	if h.r.Intn(4) == 0 {
		ctx = metadata.AppendToOutgoingContext(ctx, "grpc-encoding", pick(h.r, "gzip", "x"), "x-bin", h.str(30))
	}
	var out []byte
	err := cn.Invoke(ctx, svc+m, b, &out, grpc.ForceCodec(rawCodec{}))
	h.outcome("raw "+m, err)
}

func (h *hostile) httpReq(hc *http.Client) {
	h.c.Count("http", 1)
	paths := []string{"/v1/logs", "/v1/logs/" + url.PathEscape(h.logID()), "/v1/logs/" + url.PathEscape(h.logID()) + "/records", "/v1/records", "/v1/ping", "/" + url.PathEscape(h.str(20)), "/v1/logs/..%2f..%2fetc/records"}
	p := paths[h.r.Intn(len(paths))]
	vs := url.Values{}
	for n := h.r.Intn(5); n > 0; n-- {
		k := pick(h.r, "limit", "logsCondFilter", "recordsCondFilter", "fromPageId", "logIds", "desc", "x")
		v := map[string]string{"limit": fmt.Sprint(h.limit()), "logsCondFilter": h.logsCond(), "recordsCondFilter": h.recsCond(), "fromPageId": h.recID(), "logIds": h.logID(), "desc": pick(h.r, "true", "1", "x", "")}[k]
		if h.r.Intn(6) == 0 {
			v = h.str(20)
		}
		if len(v) > 10000 {
			v = v[:10000]
		}
		vs.Add(k, v)
	}
	var body []byte
	method := pick(h.r, "GET", "GET", "POST", "POST", "PUT", "DELETE", "PATCH", "HEAD")
	if method != "GET" && method != "HEAD" {
		pl := h.payload()
		o := pick[any](h.r, map[string]any{"tags": map[string]string{"role": "play", h.str(9): h.str(40)}}, map[string]any{"filterCondition": h.delCond()},
			map[string]any{"records": []any{map[string]any{"payload": pl}, map[string]any{}}}, map[string]any{"records": []any{nil, nil}}, map[string]any{"records": nil}, nil, []any{}, map[string]any{"tags": nil},
			map[string]any{"tags": map[string]any{"role": "play", "a": nil}}, map[string]any{"records": []any{map[string]any{"payload": "***"}}}, map[string]any{"records": []any{map[string]any{"payload": pl, "id": 1}}})
		body, _ = json.Marshal(o)
		if method == "DELETE" && !bytes.Contains(body, []byte("filterCondition")) {
			body = []byte(`{"filterCondition":"logID='none'"}`) // an empty condition deletes everything
		}
		if h.r.Intn(5) == 0 && method != "DELETE" {
			body = []byte(h.mutate(string(body)))
		}
	}
	rq, err := http.NewRequest(method, "http://"+h.s.haddr+p+"?"+vs.Encode(), bytes.NewReader(body))
	if err != nil {
		return
	}
	if h.r.Intn(6) > 0 {
		rq.Header.Set("Content-Type", "application/json")
	}
	rs, err := hc.Do(rq)
	h.c.Eval(1)
	if err != nil {
		h.c.Fail("http-broken", "HTTP %s %.300s: %v", method, rq.URL, err)
		return
	}
	rs.Body.Close()
	if rs.StatusCode < 400 {
		h.c.Count("accepted", 1)
	} else {
		h.c.Count("refused", 1)
	}
	h.c.Distinct("http", method, p[:min(9, len(p))], rs.StatusCode)
}

// rawHTTP talks garbage over TCP
func (h *hostile) rawHTTP() {
	h.c.Count("raw-http", 1)
	addr := h.s.haddr
	if h.r.Intn(4) == 0 {
		addr = h.s.gaddr
	}
	cn, err := net.Dial("tcp", addr)
	if err != nil {
		h.c.Fail("not-listening", "could not connect to %s: %v", addr, err)
		return
	}
	defer cn.Close()
	fw.Must(cn.SetDeadline(time.Now().Add(inTime)))
	id := h.play[0]
	msg := pick(h.r,
		"GET /v1/logs HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n",
		"GET /v1/logs HTTP/9.9\r\n\r\n", "GET\r\n\r\n", "\x16\x03\x01\x02\x00", h.str(300)+"\r\n\r\n",
		"POST /v1/logs HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: 100\r\n\r\n{\"tags\":",
		"POST /v1/logs HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: -5\r\n\r\n{}",
		"POST /v1/logs/"+id+"/records HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Type: application/json\r\nTransfer-Encoding: chunked\r\n\r\nZZZ\r\n{}",
		"POST /v1/logs/"+id+"/records HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Type: application/json\r\nTransfer-Encoding: chunked\r\n\r\n2\r\n{}\r\n0\r\n\r\n",
		"GET /v1/logs/%zz HTTP/1.1\r\nHost: x\r\n\r\n", "GET /v1/records?limit=%zz HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n", "GET //v1//logs HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n",
		"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"+h.str(100), "GET /v1/logs HTTP/1.1\r\nHost: x\r\nX: "+strings.Repeat("y", 2<<20)+"\r\n\r\n")
	_, _ = cn.Write([]byte(msg))
	if h.r.Intn(2) == 0 {
		return // gone without waiting for the answer
	}
	_ = cn.(*net.TCPConn).CloseWrite()
	_, err = bufio.NewReader(cn).ReadString('\n')
	var ne net.Error
	if e, ok := err.(net.Error); ok {
		ne = e
	}
	h.c.Eval(1)
	if ne != nil && ne.Timeout() {
		h.c.Fail("hangs:raw-http", "no answer to %.200q in %v", msg, inTime)
	}
	h.c.Distinct("raw-http", len(msg), err == nil)
}

func a01Hostile(c *fw.Case) {
	o := genOpts(c)
	// everything the server may write is in the folder in the middle of the scratch one
	top := o.dir
	o.dir = filepath.Join(top, "a", "b", "srv")
	fw.Must(os.MkdirAll(o.dir, 0o755))
	fw.Must(os.WriteFile(filepath.Join(top, "a", "canary"), []byte("canary"), 0o644))
	s := start(c, o)
	defer s.stop()
	m := newModel(c, s)
	mk := func(role string) string {
		l, k := m.cls[c.Rng.Intn(2)].createLog(map[string]string{"role": role, "a": "x"})
		if k != "" {
			c.Fatal("create", "could not create a log: %s", k)
		}
		return l.ID
	}
	h0 := &hostile{c: c, m: m, s: s}
	for i := 0; i < 3; i++ {
		h0.play = append(h0.play, mk("play"))
		w := mk("witness")
		h0.wit = append(h0.wit, w)
		m.logs[w] = &mlog{id: w, tags: map[string]string{"role": "witness", "a": "x"}}
		for j := 0; j < 4; j++ {
			pl := strings.Repeat("w", c.Rng.Intn(2000))
			for _, id := range []string{w, h0.play[i]} {
				if n, k := m.cls[c.Rng.Intn(2)].appendRecs(id, []string{pl}); n != 1 || k != "" {
					c.Fatal("append", "could not append a record: %d %s", n, k)
				}
			}
			m.logs[w].recs = append(m.logs[w].recs, pl)
		}
		if !m.learn(m.logs[w]) {
			return
		}
		h0.recs = append(h0.recs, m.logs[w].ids...)
	}
	h0.dead = mk("play")
	if n, k := m.cls[0].deleteLogs("logID='" + h0.dead + "'"); n != 1 || k != "" {
		c.Fatal("delete", "could not delete a log: %d %s", n, k)
	}
	files := func() string {
		var fs []string
		_ = filepath.Walk(top, func(p string, fi os.FileInfo, err error) error {
			if err != nil || p == o.dir {
				return filepath.SkipDir
			}
			fs = append(fs, p)
			return nil
		})
		sort.Strings(fs)
		return strings.Join(fs, " ")
	}
	before := files()
	run := func(h *hostile) {
		cn := s.dial()
		cl := solaris.NewServiceClient(cn)
		hc := &http.Client{Timeout: inTime, Transport: &http.Transport{}}
		defer hc.CloseIdleConnections()
		for n := 30 + h.r.Intn(30); n > 0 && !c.Failed(); n-- {
			switch h.r.Intn(8) {
			case 0:
				h.rawGrpc(cn)
			case 1:
				h.rawHTTP()
			case 2, 3:
				h.httpReq(hc)
			default:
				h.grpc(cl)
			}
		}
	}
	n := 1 + c.Rng.Intn(4)
	done := make(chan struct{}, n)
	var hs []*hostile
	for i := 0; i < n; i++ {
		h := *h0
		h.r = rand.New(rand.NewSource(c.Rng.Int63()))
		hs = append(hs, &h)
	}
	// the connections are created one after another: dial isn't for concurrent use
	for _, h := range hs {
		go func() {
			defer func() { done <- struct{}{} }()
			defer c.Recover("the hostile client")
			run(h)
		}()
	}
	for range hs {
		<-done
	}
	if c.Failed() {
		return
	}
	if after := files(); after != before {
		c.Fail("escaped", "files out of the storage folder: before %q, after %q", before, after)
	}
	// the server serves, the witnesses are intact
	hcl := grpc_health_v1.NewHealthClient(s.dial())
	ctx, cf := gctx()
	defer cf()
	if hr, err := hcl.Check(ctx, &grpc_health_v1.HealthCheckRequest{}); err != nil || hr.Status != grpc_health_v1.HealthCheckResponse_SERVING {
		c.Fail("health", "the health check returns %v, %v", hr, err)
	}
	for _, cl := range []client{s.grpc(), s.rest()} {
		p, k := cl.queryLogs("tag('role') = 'witness'", "", ptr(100))
		if k != "" || len(p.Logs) != len(h0.wit) {
			c.Fail("witness-logs", "%s: %d witness logs are found of %d (%s)", cl.name(), len(p.Logs), len(h0.wit), k)
			continue
		}
		for _, l := range p.Logs {
			ml := m.logs[l.ID]
			if ml == nil || fmt.Sprint(ml.tags) != fmt.Sprint(l.Tags) {
				c.Fail("witness-tags", "%s: the witness log is %+v", cl.name(), l)
				continue
			}
			ml.ids = nil
			if m.learn(ml) {
				c.Count("witness", 1)
			}
		}
	}
}
