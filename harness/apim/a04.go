package apim

import (
	"context"
	"fmt"
	"maps"
	"math/rand"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/connectivity"
	refl "google.golang.org/grpc/reflection/grpc_reflection_v1"
	"google.golang.org/grpc/status"
	"verif/harness/fw"
)

func init() {
	fw.Register(&fw.Prop{
		ID: "A04",
		Rule: "serve: 2-6 gRPC and REST clients create, tag, delete logs and append to their own and a common log at once, reading them back over both APIs; the server is shut down in the middle of that and " +
			"started again with the same storage, 2-3 times. Acknowledged requests must be visible to all at once and stay after the restart, the one in progress may be applied; nothing is served and no goroutine " +
			"is left after the shutdown, a stream kept open by its client is cut; the race detector is on. Distinct by the interleaving of acknowledgements (hash of the common log order) and the requests cut by the shutdown",
		MinEvents:   []string{"acked", "cut", "restarts", "logs-checked", "common-recs", "reads"},
		Assumptions: []string{"the process is not killed: the crash is D05, M03"},
		Scens: []fw.Scenario{
			{Name: "serve", Quick: 48, Thorough: 2400, Run: a04Serve},
		},
	})
}

type (
	// aclient is a client which owns its logs
	aclient struct {
		c     *fw.Case
		r     *rand.Rand
		n     int
		cls   []client
		logs  map[string]*alog
		gone  []string
		seq   int
		comm  []string    // acknowledged in the common log
		commP []string    // in progress in the common log when the server stopped
		lost  string      // ID of a log the request in progress deletes
		newL  bool        // the request in progress creates a log
		drop  atomic.Bool // the database connections are lost
	}

	alog struct {
		tags  map[string]string
		ptags map[string]string // the tags of the update in progress
		recs  []string
		pend  []string // the batch in progress
	}
)

func (a *aclient) cl() client { return a.cls[a.r.Intn(len(a.cls))] }

func (a *aclient) batch() []string {
	var b []string
	for n := 1 + a.r.Intn(5); n > 0; n-- {
		a.seq++
		b = append(b, fmt.Sprintf("%d.%d.%s", a.n, a.seq, strings.Repeat("x", pick(a.r, 0, a.r.Intn(100), a.r.Intn(1500)))))
	}
	return b
}

// fine checks the outcome: errors are allowed only when the server is being stopped
func (a *aclient) fine(stop *atomic.Bool, what, k string) bool {
	if k == "" {
		a.c.Count("acked", 1)
		return true
	}
	if !stop.Load() {
		a.c.Fail("refused:"+what, "the client %d: %s is refused: %s", a.n, what, k)
	} else {
		a.c.Count("cut", 1)
		a.c.Distinct("cut", what, k)
	}
	return false
}

// step returns false if the client cannot go on
func (a *aclient) step(common string, stop *atomic.Bool) bool {
	cl := a.cl()
	a.c.Eval(1)
	ids := slices.Sorted(maps.Keys(a.logs))
	switch k := a.r.Intn(100); {
	case len(ids) == 0 || k < 10:
		a.seq++
		tags := map[string]string{"owner": fmt.Sprint(a.n), "seq": fmt.Sprint(a.seq), "v": ""}
		a.newL = true
		l, k := cl.createLog(maps.Clone(tags))
		if !a.fine(stop, "create", k) {
			return false
		}
		a.newL = false
		a.logs[l.ID] = &alog{tags: tags}
	case k < 20:
		l := a.logs[ids[a.r.Intn(len(ids))]]
		a.seq++
		l.ptags = map[string]string{"owner": fmt.Sprint(a.n), "seq": fmt.Sprint(a.seq), "v": pick(a.r, "", "x", "y")}
		id := ""
		for i := range ids {
			if a.logs[ids[i]] == l {
				id = ids[i]
			}
		}
		if _, k := cl.updateLog(id, maps.Clone(l.ptags)); !a.fine(stop, "update", k) {
			return false
		}
		l.tags, l.ptags = l.ptags, nil
	case k < 25 && len(ids) > 1:
		a.lost = ids[a.r.Intn(len(ids))]
		n, k := cl.deleteLogs("logID = '" + a.lost + "'")
		if !a.fine(stop, "delete", k) {
			return false
		}
		if n == 0 && a.drop.Load() {
			// the database driver repeats the statement when the connection is lost before the answer
			a.c.Count("repeated", 1)
			return false
		}
		if n != 1 {
			a.c.Fail("delete-result", "the client %d: deleted %d logs, expected 1", a.n, n)
		}
		delete(a.logs, a.lost)
		a.gone = append(a.gone, a.lost)
		a.lost = ""
	case k < 45:
		a.commP = a.batch()
		n, k := cl.appendRecs(common, a.commP)
		if !a.fine(stop, "append-common", k) {
			return false
		}
		if n != len(a.commP) {
			a.c.Fail("append-result", "the client %d: %d of %d records are added", a.n, n, len(a.commP))
		}
		a.comm = append(a.comm, a.commP...)
		a.commP = nil
	case k < 70:
		id := ids[a.r.Intn(len(ids))]
		l := a.logs[id]
		l.pend = a.batch()
		n, k := cl.appendRecs(id, l.pend)
		if !a.fine(stop, "append", k) {
			return false
		}
		if n != len(l.pend) {
			a.c.Fail("append-result", "the client %d: %d of %d records are added", a.n, n, len(l.pend))
		}
		l.recs = append(l.recs, l.pend...)
		l.pend = nil
	case k < 85:
		id := ids[a.r.Intn(len(ids))]
		got, k := readLog(cl, id)
		if !a.fine(stop, "read", k) {
			return false
		}
		a.c.Count("reads", 1)
		if !slices.Equal(got, a.logs[id].recs) {
			a.c.Fail("read-your-writes", "the client %d: the log %s has %d records over %s, %d are acknowledged, or their content differs", a.n, id, len(got), cl.name(), len(a.logs[id].recs))
		}
	case k < 93:
		p, k := cl.queryLogs(fmt.Sprintf("tag('owner') = '%d'", a.n), "", ptr(1000))
		if !a.fine(stop, "query", k) {
			return false
		}
		a.c.Count("reads", 1)
		a.sameLogs(p.Logs, "the client", cl)
	default:
		got, k := readLog(cl, common)
		if !a.fine(stop, "read-common", k) {
			return false
		}
		a.c.Count("reads", 1)
		a.common(got)
	}
	return true
}

// common checks that the own records are in the common log once and in the order of acknowledgements
func (a *aclient) common(got []string) {
	var own []string
	for _, p := range got {
		if strings.HasPrefix(p, fmt.Sprintf("%d.", a.n)) {
			own = append(own, p)
		}
	}
	if n := len(a.comm); len(own) >= n && slices.Equal(own[:n], a.comm) {
		if rest := own[n:]; len(rest) <= len(a.commP) && slices.Equal(rest, a.commP[:len(rest)]) {
			a.comm = own
			return
		}
	}
	a.c.Fail("common-log", "the common log has %d records of the client %d (%d at all), acknowledged %d, in progress %d: they are not the same", len(own), a.n, len(got), len(a.comm), len(a.commP))
}

func (a *aclient) sameLogs(ls []logInfo, what string, cl client) {
	got := map[string]bool{}
	for _, l := range ls {
		got[l.ID] = true
		ml := a.logs[l.ID]
		if ml == nil {
			if a.newL && !slices.Contains(a.gone, l.ID) {
				a.newL = false
				a.logs[l.ID] = &alog{tags: l.Tags}
				continue
			}
			a.c.Fail("unknown-log", "%s %d over %s: there is the log %+v, which must not be", what, a.n, cl.name(), l)
			continue
		}
		if ml.ptags != nil && maps.Equal(l.Tags, ml.ptags) {
			ml.tags = ml.ptags
		}
		if !maps.Equal(l.Tags, ml.tags) {
			a.c.Fail("log-tags", "%s %d over %s: the log %s has the tags %v, acknowledged %v", what, a.n, cl.name(), l.ID, l.Tags, ml.tags)
		}
	}
	for id := range a.logs {
		if !got[id] && id == a.lost {
			delete(a.logs, id)
			a.gone = append(a.gone, id)
		} else if !got[id] {
			a.c.Fail("lost-log", "%s %d over %s: no log %s", what, a.n, cl.name(), id)
		}
	}
}

func readLog(cl client, id string) ([]string, string) {
	var res []string
	q := recQuery{IDs: []string{id}, Limit: ptr(1000)}
	for {
		p, k := cl.queryRecs(q)
		if k != "" {
			return nil, k
		}
		for _, r := range p.Recs {
			res = append(res, r.Payload)
		}
		if p.Next == "" {
			return res, ""
		}
		q.Start = p.Next
	}
}

// verify checks the whole state of the client after the restart
func (a *aclient) verify(cl client) {
	p, k := cl.queryLogs(fmt.Sprintf("tag('owner') = '%d'", a.n), "", ptr(1000))
	if k != "" {
		a.c.Fatal("restart-query", "querying logs after the restart over %s: %s", cl.name(), k)
	}
	a.sameLogs(p.Logs, "after the restart, the client", cl)
	a.lost, a.newL = "", false
	for id, l := range a.logs {
		l.ptags = nil
		got, k := readLog(cl, id)
		n := len(l.recs)
		if k != "" || len(got) < n || !slices.Equal(got[:n], l.recs) || len(got)-n > len(l.pend) || !slices.Equal(got[n:], l.pend[:len(got)-n]) {
			a.c.Fail("lost-records", "after the restart over %s: the log %s has %d records (%q), acknowledged %d, in progress %d: they are not the same", cl.name(), id, len(got), k, n, len(l.pend))
		}
		l.recs, l.pend = got, nil
		a.c.Count("logs-checked", 1)
	}
	a.commP = slices.Clip(a.commP)
}

// left returns the goroutines of the server which are still there
func left() string {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var res []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "github.com/solarisdb/solaris/") || strings.Contains(g, "google.golang.org/grpc.(*Server)") || strings.Contains(g, "net/http.(*conn)") {
			res = append(res, g)
		}
	}
	return strings.Join(res, "\n\n")
}

func a04Serve(c *fw.Case) {
	r := c.Rng
	o := genOpts(c)
	common := ""
	var as []*aclient
	for n := 2 + r.Intn(5); n > 0; n-- {
		as = append(as, &aclient{c: c, r: rand.New(rand.NewSource(r.Int63())), n: n, logs: map[string]*alog{}})
	}
	rounds := 2 + r.Intn(2)
	for round := 0; round <= rounds && !c.Failed(); round++ {
		s := start(c, o)
		if round > 0 {
			c.Count("restarts", 1)
		}
		var rcs []*restCli
		for _, a := range as {
			rc := s.rest()
			rc.all = true
			rcs = append(rcs, rc)
			a.cls = []client{s.grpc(), rc}
		}
		if common == "" {
			l, k := as[0].cls[0].createLog(map[string]string{"owner": "all"})
			if k != "" {
				c.Fatal("create", "the common log is not created: %s", k)
			}
			common = l.ID
		}
		if round > 0 {
			cl := as[0].cls[r.Intn(2)]
			for _, a := range as {
				a.verify(cl)
			}
			got, k := readLog(cl, common)
			if k != "" {
				c.Fatal("restart-read", "reading after the restart: %s", k)
			}
			for _, a := range as {
				a.common(got)
				a.commP = nil
			}
			total := 0
			for _, a := range as {
				total += len(a.comm)
			}
			if total != len(got) {
				c.Fail("common-log", "the common log has %d records, the clients know %d", len(got), total)
			}
			c.Count("common-recs", len(got))
			h := []any{"order"}
			for _, p := range got {
				h = append(h, p[:1])
			}
			c.Distinct(h...)
		}
		if round == rounds || c.Failed() {
			for _, rc := range rcs {
				rc.hc.CloseIdleConnections()
			}
			s.stop()
			break
		}
		var stop atomic.Bool
		var wg sync.WaitGroup
		steps := 25 + r.Intn(25)
		cutAll := r.Intn(4) > 0 // the clients go on until the server is stopped
		var cnt atomic.Int64
		for _, a := range as {
			c.Go(&wg, "the client", func() {
				for i := 0; (i < steps || cutAll) && i < 5000; i++ {
					if !a.step(common, &stop) || c.Failed() {
						return
					}
					cnt.Add(1)
				}
			})
		}
		if cutAll {
			for end := time.Now().Add(inTime); cnt.Load() < int64(steps*len(as)/2) && time.Now().Before(end) && !c.Failed(); {
				time.Sleep(time.Millisecond)
			}
		} else {
			wg.Wait()
		}
		// a connection which is open while the server is stopped
		idle := s.dial()
		icl := solaris.NewServiceClient(idle)
		ctx, cf := gctx()
		if _, err := icl.QueryLogs(ctx, &solaris.QueryLogsRequest{Limit: 1}, grpc.WaitForReady(true)); err != nil {
			c.Fail("refused:query", "the query is refused: %v", err)
		}
		cf()
		// a stream which its client doesn't close
		var ask func() error
		if r.Intn(4) == 0 {
			sctx, scf := context.WithCancel(context.Background())
			defer scf()
			st, err := refl.NewServerReflectionClient(idle).ServerReflectionInfo(sctx)
			if err != nil {
				c.Fatal("refused:stream", "the reflection stream is refused: %v", err)
			}
			ask = func() error {
				if err := st.Send(&refl.ServerReflectionRequest{MessageRequest: &refl.ServerReflectionRequest_ListServices{}}); err != nil {
					return err
				}
				_, err := st.Recv()
				return err
			}
			if err := ask(); status.Code(err) == codes.Unimplemented {
				ask = nil
			} else if err != nil {
				c.Fatal("refused:stream", "the reflection stream gives no answer: %v", err)
			} else {
				c.Count("open-streams", 1)
			}
		}
		stop.Store(true)
		c.Within(inTime, "stop-hangs", "the server shutdown", func() { s.inj.Shutdown() })
		if ask != nil {
			c.Within(inTime, "serves-stopped", "the stream over the shutdown", func() {
				if err := ask(); err == nil {
					c.Fail("serves-stopped", "the stream, which was opened before the shutdown, is served after it")
				}
			})
		}
		ctx, cf = gctx()
		if _, err := icl.QueryLogs(ctx, &solaris.QueryLogsRequest{Limit: 1}); err == nil {
			c.Fail("serves-stopped", "the gRPC request is served after the shutdown, the connection is %v", idle.GetState() == connectivity.Ready)
		}
		cf()
		if _, k := rcs[0].queryLogs("", "", nil); k == "" {
			c.Fail("serves-stopped", "the HTTP request is served after the shutdown")
		}
		wg.Wait()
		for _, rc := range rcs {
			rc.hc.CloseIdleConnections()
		}
		s.stop2()
		var lf string
		for end := time.Now().Add(10 * time.Second); ; time.Sleep(5 * time.Millisecond) {
			if lf = left(); lf == "" {
				break
			}
			if time.Now().After(end) {
				c.Fail("left-goroutines", "goroutines after the shutdown:\n%s", lf)
				break
			}
		}
	}
}
