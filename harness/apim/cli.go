package apim

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync/atomic"
	"time"

	"github.com/getkin/kin-openapi/openapi3"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	restapi "github.com/solarisdb/solaris/api/genpublic/v1"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"verif/harness/fw"
)

type (
	// logInfo, recInfo, page is what a client knows, no matter which API it uses
	logInfo struct {
		ID               string
		Tags             map[string]string
		Created, Updated time.Time
	}

	recInfo struct {
		ID, Log string
		Payload string
		Created time.Time
	}

	logsPage struct {
		Logs  []logInfo
		Next  string
		Total int
	}

	recsPage struct {
		Recs  []recInfo
		Next  string
		Total int
	}

	recQuery struct {
		LogsCond, Cond, Start string
		IDs                   []string
		Desc                  bool
		Limit                 *int
	}

	// client is a way to talk to the server. The string result is the kind of the error, "" if there is no
	client interface {
		name() string
		createLog(tags map[string]string) (logInfo, string)
		updateLog(id string, tags map[string]string) (logInfo, string)
		deleteLogs(cond string) (int, string)
		queryLogs(cond, page string, limit *int) (logsPage, string)
		appendRecs(id string, pls []string) (int, string)
		queryRecs(q recQuery) (recsPage, string)
	}

	grpcCli struct {
		c   *fw.Case
		cl  solaris.ServiceClient
		all bool // connection problems are expected
	}

	restCli struct {
		c      *fw.Case
		url    string
		hc     *http.Client
		all    bool
		spec   *openapi3.T
		noBody atomic.Bool // an error may have no body: the server recovers from the panics
	}
)

func (s *srv) grpc() *grpcCli {
	return &grpcCli{c: s.c, cl: solaris.NewServiceClient(s.dial())}
}

func (s *srv) rest() *restCli {
	spec, err := restapi.GetSwagger()
	fw.Must(err)
	return &restCli{c: s.c, url: "http://" + s.haddr, spec: spec, hc: &http.Client{Timeout: inTime, Transport: &http.Transport{DisableCompression: true, MaxIdleConnsPerHost: 4}}}
}

func (g *grpcCli) kind(what string, err error) string {
	if err == nil {
		return ""
	}
	st, ok := status.FromError(err)
	if !ok {
		g.c.Fail("not-status", "gRPC %s: the error %v is not a status", what, err)
	}
	switch st.Code() {
	case codes.NotFound:
		return "notexist"
	case codes.InvalidArgument:
		return "invalid"
	case codes.ResourceExhausted:
		return "exhausted"
	case codes.AlreadyExists, codes.FailedPrecondition:
		return "conflict"
	case codes.DeadlineExceeded:
		g.c.Fail("request-hangs", "gRPC %s: no answer in %v\n%s", what, inTime, fw.Stacks())
	}
	return "internal(" + st.Code().String() + ")"
}

func gctx() (context.Context, context.CancelFunc) {
	return context.WithTimeout(context.Background(), inTime)
}

func (g *grpcCli) name() string { return "gRPC" }

func pbLog(l *solaris.Log) logInfo {
	li := logInfo{ID: l.GetID(), Tags: l.GetTags(), Created: l.GetCreatedAt().AsTime(), Updated: l.GetUpdatedAt().AsTime()}
	if li.Tags == nil {
		li.Tags = map[string]string{}
	}
	return li
}

func (g *grpcCli) createLog(tags map[string]string) (logInfo, string) {
	ctx, cf := gctx()
	defer cf()
	l, err := g.cl.CreateLog(ctx, &solaris.Log{Tags: tags})
	return pbLog(l), g.kind("CreateLog", err)
}

func (g *grpcCli) updateLog(id string, tags map[string]string) (logInfo, string) {
	ctx, cf := gctx()
	defer cf()
	l, err := g.cl.UpdateLog(ctx, &solaris.Log{ID: id, Tags: tags})
	return pbLog(l), g.kind("UpdateLog", err)
}

func (g *grpcCli) deleteLogs(cond string) (int, string) {
	ctx, cf := gctx()
	defer cf()
	r, err := g.cl.DeleteLogs(ctx, &solaris.DeleteLogsRequest{Condition: cond})
	return len(r.GetDeletedIDs()), g.kind("DeleteLogs", err)
}

func (g *grpcCli) queryLogs(cond, page string, limit *int) (logsPage, string) {
	ctx, cf := gctx()
	defer cf()
	rq := &solaris.QueryLogsRequest{Condition: cond, PageID: page}
	if limit != nil {
		rq.Limit = int64(*limit)
	}
	r, err := g.cl.QueryLogs(ctx, rq)
	p := logsPage{Next: r.GetNextPageID(), Total: int(r.GetTotal())}
	for _, l := range r.GetLogs() {
		p.Logs = append(p.Logs, pbLog(l))
	}
	return p, g.kind("QueryLogs", err)
}

func (g *grpcCli) appendRecs(id string, pls []string) (int, string) {
	ctx, cf := gctx()
	defer cf()
	rq := &solaris.AppendRecordsRequest{LogID: id, ExpandIDs: true}
	for _, p := range pls {
		rq.Records = append(rq.Records, &solaris.Record{Payload: []byte(p)})
	}
	r, err := g.cl.AppendRecords(ctx, rq)
	if err == nil && len(r.RecordIDs) != int(r.Added) {
		g.c.Fail("ids-count", "gRPC AppendRecords: %d records are added, but there are %d IDs", r.Added, len(r.RecordIDs))
	}
	return int(r.GetAdded()), g.kind("AppendRecords", err)
}

func (q recQuery) pb(def int) *solaris.QueryRecordsRequest {
	rq := &solaris.QueryRecordsRequest{LogsCondition: q.LogsCond, Condition: q.Cond, LogIDs: q.IDs, Descending: q.Desc, StartRecordID: q.Start, Limit: int64(def)}
	if q.Limit != nil {
		rq.Limit = int64(*q.Limit)
	}
	return rq
}

func (g *grpcCli) queryRecs(q recQuery) (recsPage, string) {
	ctx, cf := gctx()
	defer cf()
	r, err := g.cl.QueryRecords(ctx, q.pb(50))
	p := recsPage{Next: r.GetNextPageID()}
	for _, r := range r.GetRecords() {
		p.Recs = append(p.Recs, recInfo{ID: r.ID, Log: r.LogID, Payload: string(r.Payload), Created: r.CreatedAt.AsTime()})
	}
	if err != nil {
		return p, g.kind("QueryRecords", err)
	}
	cnt, err := g.cl.CountRecords(ctx, q.pb(50))
	p.Total = int(cnt.GetCount())
	return p, g.kind("CountRecords", err)
}

func (r *restCli) name() string { return "REST" }

// call makes the request, validates the answer against the published schema and unmarshals it into out
func (r *restCli) call(method, path, op string, wantCode int, in, out any) string {
	var body io.Reader
	if in != nil {
		b, err := json.Marshal(in)
		fw.Must(err)
		body = bytes.NewReader(b)
	}
	rq, err := http.NewRequest(method, r.url+"/v1"+path, body)
	fw.Must(err)
	if in != nil {
		rq.Header.Set("Content-Type", "application/json")
	}
	rs, err := r.hc.Do(rq)
	if err != nil {
		var ne net.Error
		if errors.As(err, &ne) && ne.Timeout() {
			r.c.Fail("request-hangs", "REST %s %s: no answer in %v\n%s", method, path, inTime, fw.Stacks())
		} else if !r.all {
			r.c.Fail("rest-broken", "REST %s %s: %v", method, path, err)
		}
		return "internal(connection)"
	}
	defer rs.Body.Close()
	b, err := io.ReadAll(rs.Body)
	if err != nil {
		if !r.all {
			r.c.Fail("rest-broken", "REST %s %s: %v", method, path, err)
		}
		return "internal(connection)"
	}
	if rs.StatusCode != wantCode {
		var m struct {
			Error *string `json:"error"`
		}
		if err := json.Unmarshal(b, &m); err != nil || m.Error == nil {
			var m2 struct {
				Msg *string `json:"msg"`
			}
			if err := json.Unmarshal(b, &m2); (err != nil || m2.Msg == nil) && !r.noBody.Load() {
				r.c.Fail("rest-error-body", "REST %s %s: the status is %d, the body doesn't say what is wrong: %.300q", method, path, rs.StatusCode, b)
			}
		}
		switch rs.StatusCode {
		case 404:
			return "notexist"
		case 400:
			return "invalid"
		case 413:
			return "exhausted"
		case 409:
			return "conflict"
		}
		return fmt.Sprintf("internal(%d)", rs.StatusCode)
	}
	var v any
	if err := json.Unmarshal(b, &v); err != nil {
		r.c.Fail("rest-json", "REST %s %s: the body %.300q is not JSON: %v", method, path, b, err)
		return "internal(json)"
	}
	if err := r.schema(method, op, wantCode).VisitJSON(v); err != nil {
		r.c.Fail("rest-schema:"+op+":"+wherePtr(err), "REST %s %s: the answer %.600s doesn't follow the published schema: %.600s", method, path, b, err)
	}
	fw.Must(json.Unmarshal(b, out))
	return ""
}

func wherePtr(err error) string {
	var se *openapi3.SchemaError
	if errors.As(err, &se) {
		var ps []string
		for _, p := range se.JSONPointer() {
			if p != "" && (p[0] < '0' || p[0] > '9') {
				ps = append(ps, p)
			}
		}
		return strings.Join(ps, ".")
	}
	return "?"
}

func (r *restCli) schema(method, op string, code int) *openapi3.Schema {
	pi := r.spec.Paths.Find(op)
	return pi.GetOperation(method).Responses.Status(code).Value.Content["application/json"].Schema.Value
}

func restLog(l restapi.Log) logInfo {
	li := logInfo{ID: l.Id, Tags: l.Tags, Created: l.CreatedAt, Updated: l.UpdatedAt}
	if li.Tags == nil {
		li.Tags = map[string]string{}
	}
	return li
}

func (r *restCli) createLog(tags map[string]string) (logInfo, string) {
	var l restapi.Log
	k := r.call("POST", "/logs", "/logs", 201, restapi.CreateLogRequest{Tags: tags}, &l)
	return restLog(l), k
}

func (r *restCli) updateLog(id string, tags map[string]string) (logInfo, string) {
	var l restapi.Log
	k := r.call("PUT", "/logs/"+url.PathEscape(id), "/logs/{logId}", 200, restapi.UpdateLogRequest{Tags: tags}, &l)
	return restLog(l), k
}

func (r *restCli) deleteLogs(cond string) (int, string) {
	var d restapi.DeleteLogsResponse
	k := r.call("DELETE", "/logs", "/logs", 200, restapi.DeleteLogsRequest{FilterCondition: cond}, &d)
	return d.Deleted, k
}

func (r *restCli) queryLogs(cond, page string, limit *int) (logsPage, string) {
	vs := url.Values{}
	if cond != "" {
		vs.Set("logsCondFilter", cond)
	}
	if page != "" {
		vs.Set("fromPageId", page)
	}
	if limit != nil {
		vs.Set("limit", fmt.Sprint(*limit))
	}
	var q restapi.QueryLogsResult
	k := r.call("GET", "/logs?"+vs.Encode(), "/logs", 200, nil, &q)
	p := logsPage{Total: q.Total}
	if q.NextPageId != nil {
		p.Next = *q.NextPageId
	}
	for _, l := range q.Items {
		p.Logs = append(p.Logs, restLog(l))
	}
	return p, k
}

func (r *restCli) appendRecs(id string, pls []string) (int, string) {
	rq := restapi.CreateRecordsRequest{Records: []restapi.CreateRecordRequest{}}
	for _, p := range pls {
		rq.Records = append(rq.Records, restapi.CreateRecordRequest{Payload: []byte(p)})
	}
	var rs restapi.CreateRecordsResponse
	k := r.call("POST", "/logs/"+url.PathEscape(id)+"/records", "/logs/{logId}/records", 201, rq, &rs)
	return rs.Added, k
}

func (q recQuery) values() url.Values {
	vs := url.Values{}
	if q.LogsCond != "" {
		vs.Set("logsCondFilter", q.LogsCond)
	}
	if q.Cond != "" {
		vs.Set("recordsCondFilter", q.Cond)
	}
	if q.Start != "" {
		vs.Set("fromPageId", q.Start)
	}
	for _, id := range q.IDs {
		vs.Add("logIds", id)
	}
	if q.Desc {
		vs.Set("desc", "true")
	}
	if q.Limit != nil {
		vs.Set("limit", fmt.Sprint(*q.Limit))
	}
	return vs
}

func (r *restCli) queryRecs(q recQuery) (recsPage, string) {
	var rs restapi.QueryRecordsResult
	k := r.call("GET", "/records?"+q.values().Encode(), "/records", 200, nil, &rs)
	p := recsPage{Total: rs.Total}
	if rs.NextPageId != nil {
		p.Next = *rs.NextPageId
	}
	for _, r := range rs.Items {
		p.Recs = append(p.Recs, recInfo{ID: r.Id, Log: r.LogId, Payload: string(r.Payload), Created: r.CreatedAt})
	}
	return p, k
}
