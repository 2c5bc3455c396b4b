package store

import (
	"fmt"
	"strings"
	"time"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/pkg/api"
	"verif/harness/fw"
)

// rcond is a condition on the age of records. It is evaluated by three-valued logic, because the
// time when the server takes "now" is known to be between the beginning and the end of the request only
type rcond struct {
	kind string // or, and, not, or the operation
	subs []*rcond
	ago  time.Duration
	lit  string
}

const (
	rNo = iota
	rMay
	rYes
)

func (r *rcond) eval(ct, b, e time.Time) int {
	switch r.kind {
	case "or":
		v := rNo
		for _, s := range r.subs {
			v = max(v, s.eval(ct, b, e))
		}
		return v
	case "and":
		v := rYes
		for _, s := range r.subs {
			v = min(v, s.eval(ct, b, e))
		}
		return v
	case "not":
		return rYes - r.subs[0].eval(ct, b, e)
	}
	v := rMay
	if ct.Before(b.Add(-r.ago - time.Millisecond)) {
		v = rYes
	} else if ct.After(e.Add(-r.ago + time.Millisecond)) {
		v = rNo
	}
	if r.kind[0] == '>' {
		v = rYes - v
	}
	return v
}

func (r *rcond) text() string {
	switch r.kind {
	case "or", "and":
		var ps []string
		for _, s := range r.subs {
			ps = append(ps, "("+s.text()+")")
		}
		return strings.Join(ps, " "+r.kind+" ")
	case "not":
		return "NOT (" + r.subs[0].text() + ")"
	}
	return "ctime " + r.kind + " '" + r.lit + "'"
}

func genRel(c *fw.Case, depth int) *rcond {
	if depth > 0 && c.Rng.Intn(2) == 0 {
		if c.Rng.Intn(3) == 0 {
			return &rcond{kind: "not", subs: []*rcond{genRel(c, depth-1)}}
		}
		return &rcond{kind: pick(c, "or", "and"), subs: []*rcond{genRel(c, depth-1), genRel(c, depth-1)}}
	}
	r := &rcond{kind: pick(c, "<", ">", "<=", ">=")}
	switch c.Rng.Intn(8) {
	case 0:
		r.ago, r.lit = time.Hour, "-1h"
	case 1:
		r.ago, r.lit = 36*time.Hour, "-1.5d"
	default:
		ms := 5 + c.Rng.Intn(700)
		r.ago = time.Duration(ms) * time.Millisecond
		if c.Rng.Intn(2) == 0 {
			r.lit = fmt.Sprintf("-%.7fm", r.ago.Minutes())
		} else {
			r.lit = fmt.Sprintf("-%.9fh", r.ago.Hours())
		}
	}
	return r
}

// d04Relative: the conditions relative to the current time, which are repeated while the time goes and the records are added
func d04Relative(c *fw.Case) {
	cc := genChunkCfg(c)
	lc := genLogCfg(c)
	lc.MaxLocks = 3 + c.Rng.Intn(10)
	sc := stackCfg{Dir: c.Dir(), MaxOpened: 1 + c.Rng.Intn(4), Chunk: cc, Log: lc, Cached: c.Rng.Intn(2) == 0, InMemMeta: true}
	rs := &recSet{s: openStack(sc), model: map[string][]rec{}, tags: map[string]string{}, cfg: fmt.Sprint(sc)}
	defer rs.s.close()
	rs.svc = api.NewService()
	rs.svc.LogsStorage = rs.s.meta
	rs.svc.LogStorage = rs.s.log
	rs.addLogs(c, pick(c, 1, 2, 3))
	var conds []*rcond
	for i := 0; i < 3; i++ {
		conds = append(conds, genRel(c, i))
	}
	small := min(maxRecSize(cc), 60)
	end := time.Now().Add(1100 * time.Millisecond)
	flips := map[string]int{}
	for i := 0; time.Now().Before(end) && !c.Failed(); i++ {
		if c.Rng.Intn(3) > 0 {
			rs.add(c, rs.lids[c.Rng.Intn(len(rs.lids))], 1+c.Rng.Intn(3), small, i)
		}
		time.Sleep(time.Duration(1+c.Rng.Intn(20)) * time.Millisecond)
		cond := conds[c.Rng.Intn(len(conds))]
		q := &rquery{req: &solaris.QueryRecordsRequest{Condition: cond.text(), Limit: 1 << 30, Descending: c.Rng.Intn(2) == 0}}
		q.lids = rs.lids
		if c.Rng.Intn(2) == 0 {
			q.lids = rs.lids[:1]
			q.req.LogIDs = q.lids
		}
		count := c.Rng.Intn(3) == 0
		b := time.Now()
		got := map[string]bool{}
		n := 0
		if count {
			res, err := rs.svc.CountRecords(fw.Ctx(), q.req)
			if err != nil {
				c.Fatal("count-error", "%s failed: %v; cfg=%s", q, err, rs.cfg)
			}
			n = int(res.Count)
		} else {
			// the size limits make several pages
			req := q.req
			for {
				res, err := rs.svc.QueryRecords(fw.Ctx(), req)
				if err != nil {
					c.Fatal("query-error", "%s failed: %v; cfg=%s", q, err, rs.cfg)
				}
				if len(res.Records) == 0 {
					break
				}
				for _, r := range res.Records {
					if got[r.ID] {
						c.Fatal("duplicated", "%s: the record %s is returned twice; cfg=%s", q, r.ID, rs.cfg)
					}
					got[r.ID] = true
				}
				req = &solaris.QueryRecordsRequest{LogIDs: req.LogIDs, Condition: req.Condition, Descending: req.Descending, Limit: req.Limit,
					StartRecordID: nextID(res.Records[len(res.Records)-1].ID, req.Descending)}
			}
		}
		e := time.Now()
		c.Eval(1)
		must, may, all := 0, 0, 0
		for _, l := range q.lids {
			for _, r := range rs.model[l] {
				all++
				v := cond.eval(r.time(), b, e)
				if v == rYes {
					must++
				}
				if v >= rMay {
					may++
				}
				if !count && (v == rYes && !got[r.id] || v == rNo && got[r.id]) {
					c.Fatal("relative-mismatch", "%s: the record %s is created at %v (%v before the request, which took %v), it is returned: %t; cfg=%s", q, r.id, r.time(), b.Sub(r.time()), e.Sub(b), got[r.id], rs.cfg)
				}
			}
		}
		if !count {
			n = len(got)
		} else {
			c.Count("relative-counts", 1)
		}
		if n < must || n > may {
			c.Fatal("relative-count", "%s: %d records, but from %d to %d of %d match (the request took %v); cfg=%s", q, n, must, may, all, e.Sub(b), rs.cfg)
		}
		c.Count("relative", 1)
		if must > 0 && may < all {
			c.Count("relative-subset", 1)
		}
		k := fmt.Sprintf("%s/%d", q.req.Condition, len(q.lids))
		if old, ok := flips[k]; ok && old != n {
			c.Count("relative-repeated", 1) // the same text is answered in another way
		}
		flips[k] = n
	}
	c.Distinct("relative", fmt.Sprint(flips))
	c.Sample("relative conditions %v", flips)
}
