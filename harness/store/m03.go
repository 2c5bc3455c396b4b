package store

import (
	"encoding/json"
	"fmt"
	"maps"
	"os"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/oklog/ulid/v2"
	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/pkg/storage/buntdb"
	"github.com/solarisdb/solaris/pkg/storage/logfs"
	"verif/harness/fw"
)

func init() {
	fw.Register(&fw.Prop{
		ID: "M03",
		Rule: "crash: a child process with 1-4 writers (each owns its logs) creates, updates, marks and deletes logs (many at once, by IDs or by condition) and updates " +
			"chunk infos; it is killed with SIGKILL at a random moment or right at the N-th write or fsync; the database is opened and for every writer the state " +
			"must be what it acknowledged, possibly with the one request in progress applied completely; 2-4 kills per case. bulk: the same with 400-1600 logs in the " +
			"database and requests for hundreds of them (delete, mark, by a condition, chunk infos). distinct by the crash point, the request in progress and whether it is applied",
		MinEvents:   []string{"kills", "acked-ops", "pending", "pending-applied", "logs-checked", "bulk-ops"},
		Assumptions: []string{"the operating system keeps running (no power failure)"},
		Scens: []fw.Scenario{
			{Name: "crash", Quick: 48, Thorough: 2400, Run: func(c *fw.Case) { m03Crash(c, 0) }},
			{Name: "bulk", Quick: 24, Thorough: 800, Run: func(c *fw.Case) { m03Crash(c, 400+c.Rng.Intn(1200)) }},
		},
	})
	fw.Subcommand("m03child", m03Child)
}

type (
	m03Cfg struct {
		Path    string
		Seed    int64
		Cycle   int
		Writers []map[string]*m03Log
		Ops     int
		Bulk    int
	}
	m03Log struct {
		Tags   map[string]string
		Marked bool
		Chunks map[string]int
	}
	// m03Op is the request
	m03Op struct {
		W      int
		Op     string // create, update, mark, delete, cmark, cdelete, chunks
		IDs    []string
		Tags   map[string]string
		Chunks map[string]int
		Res    string `json:",omitempty"`
		Fail   string `json:",omitempty"`
	}
	m03State map[string]*m03Log
)

func (l *m03Log) clone() *m03Log {
	return &m03Log{Tags: maps.Clone(l.Tags), Marked: l.Marked, Chunks: maps.Clone(l.Chunks)}
}

func (s m03State) clone() m03State {
	r := m03State{}
	for k, v := range s {
		r[k] = v.clone()
	}
	return r
}

// apply returns the state after the op
func (s m03State) apply(o m03Op) m03State {
	r := s.clone()
	switch o.Op {
	case "create":
		r[o.Res] = &m03Log{Tags: o.Tags, Chunks: map[string]int{}}
	case "update":
		r[o.IDs[0]].Tags = o.Tags
	case "mark":
		for _, id := range o.IDs {
			r[id].Marked = true
		}
	case "delete":
		for _, id := range o.IDs {
			delete(r, id)
		}
	case "cmark", "cdelete":
		for id, l := range r {
			if l.Tags["g"] == o.Tags["g"] {
				if o.Op == "cdelete" {
					delete(r, id)
				} else {
					l.Marked = true
				}
			}
		}
	case "chunks":
		for k, v := range o.Chunks {
			r[o.IDs[0]].Chunks[k] = v
		}
	}
	return r
}

// partOf returns whether got is the state with a part of the op applied
func (s m03State) partOf(o m03Op, got m03State) bool {
	all := s.apply(o)
	for id, g := range got {
		was, is := s[id], all[id]
		if was == nil && is == nil {
			return false
		}
		for _, l := range []*m03Log{was, is} {
			if l != nil && l.Marked == g.Marked && maps.Equal(l.Tags, g.Tags) {
				is = l
			}
		}
		if is == nil || is.Marked != g.Marked || !maps.Equal(is.Tags, g.Tags) {
			return false
		}
		for k, v := range g.Chunks {
			old, ok := is.Chunks[k]
			if was != nil && !ok {
				old, ok = was.Chunks[k]
			}
			if n, in := o.Chunks[k]; !(ok && old == v) && !(in && n == v) {
				return false
			}
		}
	}
	for id := range s {
		if all[id] != nil && got[id] == nil {
			return false
		}
	}
	return true
}

func (s m03State) diff(o m03State) string {
	for id, l := range s {
		ol := o[id]
		if ol == nil {
			return fmt.Sprintf("log %s %q is lost", id, l.Tags)
		}
		if !maps.Equal(l.Tags, ol.Tags) {
			return fmt.Sprintf("log %s has tags %q, want %q", id, ol.Tags, l.Tags)
		}
		if l.Marked != ol.Marked {
			return fmt.Sprintf("log %s marked=%t, want %t", id, ol.Marked, l.Marked)
		}
		if !l.Marked && !maps.Equal(l.Chunks, ol.Chunks) {
			return fmt.Sprintf("log %s has chunks %v, want %v", id, ol.Chunks, l.Chunks)
		}
	}
	for id, l := range o {
		if s[id] == nil {
			return fmt.Sprintf("log %s %q must not be there", id, l.Tags)
		}
	}
	return ""
}

func m03Child(args []string) {
	var cfg m03Cfg
	b, err := os.ReadFile(args[0])
	fw.Must(err)
	fw.Must(json.Unmarshal(b, &cfg))
	db := buntdb.NewStorage(buntdb.Config{DBFilePath: cfg.Path})
	fw.Must(db.Init(fw.Ctx()))
	var olock sync.Mutex
	say := func(kind string, o m03Op) {
		js, err := json.Marshal(o)
		fw.Must(err)
		olock.Lock()
		defer olock.Unlock()
		_, _ = os.Stdout.Write([]byte(kind + " " + string(js) + "\n"))
	}
	var wg sync.WaitGroup
	for w, st0 := range cfg.Writers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := newRand(cfg.Seed*17 + int64(w))
			st := m03State(st0)
			wn := fmt.Sprintf("w%d", w)
			seq := 0
			for i := 0; i < cfg.Ops; i++ {
				var live []string
				for id, l := range st {
					if !l.Marked {
						live = append(live, id)
					}
				}
				slices.Sort(live)
				rng.Shuffle(len(live), func(i, j int) { live[i], live[j] = live[j], live[i] })
				o := m03Op{W: w}
				k := rng.Intn(100)
				seq++
				tags := map[string]string{"w": wn, "g": fmt.Sprint(rng.Intn(6)), "n": fmt.Sprintf("%d.%d.%d", cfg.Cycle, w, seq)}
				if rng.Intn(3) == 0 {
					tags["pad"] = strings.Repeat("x", rng.Intn(3000))
				}
				some := live[:min(len(live), 1+rng.Intn(6))]
				switch {
				case len(live) == 0 || k < 30 && len(st) < 60:
					o.Op, o.Tags = "create", tags
				case cfg.Bulk > 0 && k < 60: // hundreds of the logs at once
					o.Op = []string{"mark", "delete", "mark", "delete", "cmark", "cdelete", "chunks"}[rng.Intn(7)]
					switch o.Op {
					case "cmark", "cdelete":
						o.Tags = map[string]string{"g": tags["g"]}
					case "chunks":
						o.IDs, o.Chunks = live[:1], map[string]int{}
						for n := 1 + rng.Intn(700); n > 0; n-- {
							o.Chunks[ulid.Make().String()] = rng.Intn(1000)
						}
					default:
						o.IDs = live[:1+rng.Intn(len(live)/2+1)]
					}
				case k < 45:
					o.Op, o.IDs, o.Tags = "update", live[:1], tags
				case k < 55:
					o.Op, o.IDs = "mark", some
				case k < 65:
					o.Op, o.IDs = "delete", some
				case k < 69:
					o.Op, o.Tags = "cmark", map[string]string{"g": tags["g"]}
				case k < 73:
					o.Op, o.Tags = "cdelete", map[string]string{"g": tags["g"]}
				default:
					o.Op, o.IDs, o.Chunks = "chunks", live[:1], map[string]int{}
					for n := 1 + rng.Intn(8); n > 0; n-- {
						o.Chunks[ulid.Make().String()] = rng.Intn(1000)
					}
					for cid := range st[live[0]].Chunks {
						if rng.Intn(2) == 0 {
							o.Chunks[cid] = rng.Intn(1000)
						}
					}
				}
				say("I", o)
				var err error
				switch o.Op {
				case "create":
					var l *solaris.Log
					if l, err = db.CreateLog(fw.Ctx(), &solaris.Log{Tags: o.Tags}); err == nil {
						o.Res = l.ID
					}
				case "update":
					_, err = db.UpdateLog(fw.Ctx(), &solaris.Log{ID: o.IDs[0], Tags: o.Tags})
				case "mark", "delete":
					_, err = db.DeleteLogs(fw.Ctx(), storage.DeleteLogsRequest{IDs: o.IDs, MarkOnly: o.Op == "mark"})
				case "cmark", "cdelete":
					_, err = db.DeleteLogs(fw.Ctx(), storage.DeleteLogsRequest{Condition: fmt.Sprintf("tag('w')='%s' AND tag('g')='%s'", wn, o.Tags["g"]), MarkOnly: o.Op == "cmark"})
				case "chunks":
					var cis []logfs.ChunkInfo
					for cid, n := range o.Chunks {
						cis = append(cis, logfs.ChunkInfo{ID: cid, RecordsCount: n})
					}
					err = db.UpsertChunkInfos(fw.Ctx(), o.IDs[0], cis)
				}
				if err != nil {
					o.Fail = err.Error()
					say("E", o)
					continue
				}
				say("A", o)
				st = st.apply(o)
			}
		}()
	}
	wg.Wait()
	say("F", m03Op{})
	select {}
}

// m03Bulk creates the logs in the database for the writers
func m03Bulk(c *fw.Case, cfg *m03Cfg) {
	db := buntdb.NewStorage(buntdb.Config{DBFilePath: cfg.Path})
	fw.Must(db.Init(fw.Ctx()))
	defer db.Shutdown()
	for w, st := range cfg.Writers {
		for len(st) < cfg.Bulk/len(cfg.Writers) {
			l, err := db.CreateLog(fw.Ctx(), &solaris.Log{Tags: map[string]string{"w": fmt.Sprintf("w%d", w), "g": fmt.Sprint(c.Rng.Intn(6)), "n": fmt.Sprint(len(st))}})
			fw.Must(err)
			st[l.ID] = &m03Log{Tags: l.Tags, Chunks: map[string]int{}}
		}
	}
}

func m03Crash(c *fw.Case, bulk int) {
	cfg := m03Cfg{Path: c.Dir() + "/meta.db", Ops: 400, Bulk: bulk}
	for w := 0; w < 1+c.Rng.Intn(4); w++ {
		cfg.Writers = append(cfg.Writers, map[string]*m03Log{})
	}
	for cyc := 0; cyc < 2+c.Rng.Intn(3); cyc++ {
		if bulk > 0 {
			m03Bulk(c, &cfg)
		}
		cfg.Cycle, cfg.Seed = cyc, c.Rng.Int63()
		js, err := json.Marshal(cfg)
		fw.Must(err)
		fw.Must(os.WriteFile(c.Dir()+"/cfg.json", js, 0o644))
		pend := make([]*m03Op, len(cfg.Writers))
		n := 0
		line := func(ln string) bool {
			kind, js, _ := strings.Cut(ln, " ")
			var o m03Op
			if json.Unmarshal([]byte(js), &o) != nil {
				return false // torn by the kill
			}
			switch kind {
			case "I":
				pend[o.W] = &o
			case "E":
				c.Fail("op-failed", "%s failed: %s", js, o.Fail)
				pend[o.W] = nil
			case "A":
				pend[o.W] = nil
				cfg.Writers[o.W] = m03State(cfg.Writers[o.W]).apply(o)
				n++
				if len(o.IDs) > 100 || len(o.Chunks) > 100 {
					c.Count("bulk-ops", 1)
				}
			}
			return kind == "F"
		}
		enough := 1 + c.Rng.Intn(300)
		if bulk > 0 {
			enough = c.Rng.Intn(25)
		}
		sysc, when := "", 0
		if c.Rng.Intn(3) == 0 {
			sysc, when = pick(c, "write", "fsync", "write"), 5+c.Rng.Intn(400)
			if bulk > 0 {
				when = 5 + c.Rng.Intn(60)
			}
			if sysc == "fsync" {
				when = 1 + c.Rng.Intn(2)
			}
		}
		end := runKilled(c, []string{"m03child", c.Dir() + "/cfg.json"}, sysc, when, func() bool { return n >= enough },
			time.Duration(c.Rng.Intn(1500))*time.Microsecond, line)
		c.Count("acked-ops", n)
		if c.Failed() {
			return
		}
		// check. A write the process is killed within stops on a page border
		fi, err := os.Stat(cfg.Path)
		fw.Must(err)
		torn := fi.Size() > 0 && fi.Size()%4096 == 0
		db := buntdb.NewStorage(buntdb.Config{DBFilePath: cfg.Path})
		if err := db.Init(fw.Ctx()); err != nil {
			c.Fatal("open-failed", "the metadata can't be opened after the kill: %v", err)
		}
		for w := range cfg.Writers {
			got := m03State{}
			r := storage.QueryLogsRequest{Deleted: true, Condition: fmt.Sprintf("tag('w')='w%d'", w), Limit: 1000}
			query := func() (logs []*solaris.Log) {
				r := r
				for {
					qr, err := db.QueryLogs(fw.Ctx(), r)
					if err != nil {
						c.Fatal("read-error", "query of logs: %v", err)
					}
					logs = append(logs, qr.Logs...)
					if r.Page = qr.NextPageID; r.Page == "" {
						return logs
					}
				}
			}
			for _, l := range query() {
				got[l.ID] = &m03Log{Tags: l.Tags, Marked: true, Chunks: map[string]int{}}
			}
			r.Deleted = false
			for _, l := range query() {
				g := got[l.ID]
				if g == nil {
					c.Fatal("read-error", "log %s disappeared", l.ID)
				}
				g.Marked = false
				cis, err := db.GetChunks(fw.Ctx(), l.ID)
				if err != nil {
					c.Fatal("read-error", "chunks of %s: %v", l.ID, err)
				}
				for _, ci := range cis {
					g.Chunks[ci.ID] = ci.RecordsCount
				}
			}
			c.Eval(1)
			c.Count("logs-checked", len(got))
			want := m03State(cfg.Writers[w])
			d := want.diff(got)
			if p := pend[w]; p != nil {
				c.Count("pending", 1)
				applied := false
				if d != "" {
					if p.Op == "create" {
						for id, g := range got {
							if want[id] == nil && maps.Equal(g.Tags, p.Tags) {
								p.Res = id
							}
						}
					}
					if d2 := want.apply(*p).diff(got); d2 == "" {
						d, applied = "", true
						c.Count("pending-applied", 1)
					} else {
						d = fmt.Sprintf("neither the acknowledged state (%s) nor with the request in progress %+v (%s)", d, *p, d2)
					}
				}
				c.Distinct(end, p.Op, applied, len(p.IDs), len(got))
			}
			if d != "" {
				db.Shutdown()
				if torn && pend[w] != nil && m03State(cfg.Writers[w]).partOf(*pend[w], got) {
					c.Fatal("torn-write", "after the kill (%s), the file ends on the page border %d, writer %d: %s", end, fi.Size(), w, d)
				}
				c.Fatal("lost", "after the kill (%s) writer %d: %s", end, w, d)
			}
			// chunks of the marked logs are unknown, keep the model
			for id, g := range got {
				if l := want[id]; l != nil && g.Marked {
					g.Chunks = l.Chunks
				}
			}
			cfg.Writers[w] = got
		}
		db.Shutdown()
		c.Sample("writers=%d acked=%d end=%s", len(cfg.Writers), n, end)
	}
}
