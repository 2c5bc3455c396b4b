package store

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	serrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/pkg/storage/cache"
	"github.com/solarisdb/solaris/pkg/storage/logfs"
	"verif/harness/fw"
)

func init() {
	fw.Register(&fw.Prop{
		ID: "D01",
		Rule: "a case is a PRNG-chosen storage configuration (chunk/grow/bunch/limit sizes, opened-chunks bound, cached or not) and a history of 6-30 appends " +
			"with hostile payload sizes (0, 1, capacity-exact, oversized) over 1-3 logs, interleaved with reads; non-trivial: at least one record was acknowledged; " +
			"distinct by (configuration, batch layout). big-batch: one batch of 1000-3000 small records. cancelled: the context of an append or a read is cancelled when it is " +
			"asked for its state for the k-th time, while somebody else holds the opened chunks: the append returns an error and stores nothing, or stores the prefix it returned",
		MinEvents: []string{"acked", "read", "refused", "big-batches", "cancelled-appends", "partial-appends", "no-place", "read-full"},
		Scens: []fw.Scenario{
			{Name: "append-read", Quick: 320, Thorough: 8000, Run: d01Run},
			{Name: "long-log", Quick: 8, Thorough: 120, Run: d01Long},
			{Name: "big-batch", Quick: 8, Thorough: 200, Run: d01Big},
			{Name: "cancelled", Quick: 96, Thorough: 4000, Run: d01Cancelled},
			{Name: "full-disk", Quick: 120, Thorough: 4000, Run: d01Disk},
		},
	})
}

func d01Run(c *fw.Case) {
	cc := genChunkCfg(c)
	lc := genLogCfg(c)
	nLogs := 1 + c.Rng.Intn(3)
	if lc.MaxLocks < 1 {
		lc.MaxLocks = 1
	}
	sc := stackCfg{Dir: c.Dir(), MaxOpened: 1 + c.Rng.Intn(4), Chunk: cc, Log: lc, Cached: c.Rng.Intn(2) == 0}
	s := openStack(sc)
	defer s.close()
	mx := maxRecSize(cc)
	lids := make([]string, nLogs)
	model := map[string][]rec{}
	for i := range lids {
		lids[i] = s.newLog(nil)
	}
	layout := fmt.Sprint(sc)
	ops := 6 + c.Rng.Intn(25)
	seq := 0
	for op := 0; op < ops && !c.Failed(); op++ {
		lid := lids[c.Rng.Intn(nLogs)]
		n := pick(c, 0, 1, 1, 1, 2, 3, 5, 8, 20)
		pls := make([][]byte, n)
		fit := n
		for i := range pls {
			seq++
			pls[i] = genPayload(c, mx, fmt.Sprintf("#%d#", seq))
		}
		if n > 0 && c.Rng.Intn(6) == 0 {
			fit = c.Rng.Intn(n)
			pls[fit] = make([]byte, mx+1+c.Rng.Intn(2)*c.Rng.Intn(5000))
		}
		orig := make([][]byte, n)
		for i, p := range pls {
			orig[i] = append([]byte{}, p...)
			layout += fmt.Sprintf("|%d", len(p))
		}
		ids, added, err := s.append(lid, pls)
		c.Eval(1)
		if added != fit {
			c.Fatal("wrong-added", "batch sizes=%v to the log with %d records: added=%d, err=%v, but the leading %d records fit an empty chunk; cfg=%s",
				sizes(orig), len(model[lid]), added, err, fit, sc)
		}
		if fit == 0 && n > 0 {
			c.Count("refused", 1)
			if err == nil || !errors.Is(err, serrors.ErrInvalid) {
				c.Fail("refuse-error", "a record of %d bytes cannot be stored, but the error is %v", len(orig[0]), err)
			}
		} else if err != nil {
			c.Fatal("append-error", "append of %v failed: %v; cfg=%s", sizes(orig), err, sc)
		}
		if len(ids) != added {
			c.Fatal("wrong-ids", "added=%d, but %d IDs are returned", added, len(ids))
		}
		last := ""
		if m := model[lid]; len(m) > 0 {
			last = m[len(m)-1].id
		}
		for i := 0; i < added; i++ {
			if ids[i] <= last {
				c.Fatal("id-order", "the record ID %s is not greater than the previous one %s", ids[i], last)
			}
			last = ids[i]
			model[lid] = append(model[lid], rec{ids[i], orig[i]})
		}
		c.Count("acked", added)
		// the storage must not keep references to the caller memory
		for _, p := range pls {
			for j := range p {
				p[j] ^= 0x5a
			}
		}
		if c.Rng.Intn(3) == 0 {
			d01Read(c, s, lids, model, sc)
		}
	}
	d01Read(c, s, lids, model, sc)
	d01Read(c, s, lids, model, sc)
	c.Distinct(layout)
	c.Sample("%s ops=%d records=%d", sc, ops, seq)
}

func sizes(pls [][]byte) []int {
	r := make([]int, len(pls))
	for i, p := range pls {
		r[i] = len(p)
	}
	return r
}

func d01Read(c *fw.Case, s *stack, lids []string, model map[string][]rec, sc stackCfg) {
	for _, lid := range lids {
		desc := c.Rng.Intn(2) == 0
		lim := int64(pick(c, 1, 2, 3, 10, 100, 5000))
		rs, err := s.readAll(c, lid, "", desc, lim)
		c.Eval(1)
		if err != nil {
			c.Fatal("read-error", "reading of the log %s (%d records) failed: %v; cfg=%s", lid, len(model[lid]), err, sc)
		}
		c.Count("read", len(rs))
		compareAll(c, "read-mismatch", lid, rs, model[lid], desc)
		for _, r := range rs {
			for j := range r.Payload {
				r.Payload[j] ^= 0xa5
			}
		}
	}
}

func compareAll(c *fw.Case, sig, lid string, rs []*solaris.Record, m []rec, desc bool) {
	for i, r := range rs {
		if i >= len(m) {
			c.Fatal(sig, "the log %s has %d records, but %d are returned, extra: %s", lid, len(m), len(rs), r.ID)
		}
		w := m[i]
		if desc {
			w = m[len(m)-1-i]
		}
		if !checkRec(c, sig, fmt.Sprintf("log %s position %d of %d, desc=%t", lid, i, len(m), desc), r, w, lid) {
			c.Stop()
		}
	}
	if len(rs) != len(m) {
		c.Fatal(sig, "the log %s has %d records, but only %d are returned", lid, len(m), len(rs))
	}
}

// d01Long fills the log with many chunks with the default-like big growth
func d01Long(c *fw.Case) {
	cc := genChunkCfg(c)
	cc.MaxChunkSize = int64(pick(c, 8, 32, 64, 200)) * blk
	cc.NewSize = int64(pick(c, 1, 2, 8)) * blk
	cc.MaxGrowIncreaseSize = int64(pick(c, 1, 3, 16)) * blk
	lc := genLogCfg(c)
	lc.MaxBunchSize = 1 << 20
	lc.MaxRecordsLimit = 10000
	sc := stackCfg{Dir: c.Dir(), MaxOpened: 2, Chunk: cc, Log: lc, Cached: true}
	s := openStack(sc)
	defer s.close()
	lid := s.newLog(nil)
	var m []rec
	total := 1500 + c.Rng.Intn(1500)
	for len(m) < total {
		n := 1 + c.Rng.Intn(200)
		pls := make([][]byte, n)
		for i := range pls {
			b := make([]byte, c.Rng.Intn(pick(c, 10, 100, 1000)))
			c.Rng.Read(b)
			pls[i] = b
		}
		ids, added, err := s.append(lid, pls)
		if err != nil || added != n {
			c.Fatal("wrong-added", "batch of %d records, each fits: added=%d err=%v cfg=%s", n, added, err, sc)
		}
		for i := range ids {
			m = append(m, rec{ids[i], pls[i]})
		}
		c.Count("acked", added)
		c.Eval(1)
	}
	for _, desc := range []bool{false, true} {
		rs, err := s.readAll(c, lid, "", desc, 777)
		if err != nil {
			c.Fatal("read-error", "%v", err)
		}
		compareAll(c, "read-mismatch", lid, rs, m, desc)
		c.Count("read", len(rs))
		c.Eval(1)
	}
	c.Distinct(fmt.Sprint(sc, total))
	c.Sample("%s total=%d", sc, total)
}

// d01Big appends huge batches of small records
func d01Big(c *fw.Case) {
	cc := genChunkCfg(c)
	cc.MaxChunkSize = int64(pick(c, 4, 16, 64)) * blk
	sc := stackCfg{Dir: c.Dir(), MaxOpened: 1 + c.Rng.Intn(3), Chunk: cc, Log: genLogCfg(c), Cached: c.Rng.Intn(2) == 0}
	s := openStack(sc)
	defer s.close()
	lid := s.newLog(nil)
	var m []rec
	for b := 0; b < 3; b++ {
		pls := make([][]byte, pick(c, 999, 1000, 1001, 1024, 1025, 2500, 1000+c.Rng.Intn(2000)))
		for i := range pls {
			pls[i] = []byte(fmt.Sprintf("%d.%d", b, i))[:c.Rng.Intn(4)]
		}
		ids, added, err := s.append(lid, pls)
		if err != nil || added != len(pls) || len(ids) != added {
			c.Fatal("wrong-added", "batch of %d records, each fits: added=%d ids=%d err=%v cfg=%s", len(pls), added, len(ids), err, sc)
		}
		for i := range ids {
			m = append(m, rec{ids[i], pls[i]})
		}
		c.Count("big-batches", 1)
		c.Count("acked", added)
		c.Eval(1)
		c.Distinct("big", len(pls), fmt.Sprint(sc))
	}
	d01Read(c, s, []string{lid}, map[string][]rec{lid: m}, sc)
}

// ctxMeta fails the calls whose context is done, like a database driver does
type ctxMeta struct {
	cache.LogsChunksMetaStorage
}

func (s *ctxMeta) GetLastChunk(ctx context.Context, l string) (logfs.ChunkInfo, error) {
	if err := ctx.Err(); err != nil {
		return logfs.ChunkInfo{}, err
	}
	return s.LogsChunksMetaStorage.GetLastChunk(ctx, l)
}

func (s *ctxMeta) GetChunks(ctx context.Context, l string) ([]logfs.ChunkInfo, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	return s.LogsChunksMetaStorage.GetChunks(ctx, l)
}

func (s *ctxMeta) UpsertChunkInfos(ctx context.Context, l string, cis []logfs.ChunkInfo) error {
	if err := ctx.Err(); err != nil {
		return err
	}
	if err := s.LogsChunksMetaStorage.UpsertChunkInfos(ctx, l, cis); err != nil {
		return err
	}
	return ctx.Err()
}

// d01Cancelled makes requests whose contexts are cancelled while they are served
func d01Cancelled(c *fw.Case) {
	cc := genChunkCfg(c)
	cc.MaxChunkSize = int64(pick(c, 1, 1, 2)) * blk
	cc.NewSize = blk
	sc := stackCfg{Dir: c.Dir(), MaxOpened: 1 + c.Rng.Intn(3), Chunk: cc, Log: genLogCfg(c), Cached: c.Rng.Intn(2) == 0}
	sc.Log.MaxLocks = pick(c, 1, 2)
	sc.MaxOpened = pick(c, 1, 1, 2)
	sc.WrapMeta = func(m cache.LogsChunksMetaStorage) cache.LogsChunksMetaStorage { return &ctxMeta{m} }
	s := openStack(sc)
	defer s.close()
	lid := s.newLog(nil)
	var m []rec
	// somebody else holds opened chunks, so the requests wait
	var wg sync.WaitGroup
	var stop atomic.Bool
	for k := 0; k < sc.MaxOpened; k++ {
		other := s.newLog(nil)
		if _, n, err := s.append(other, [][]byte{[]byte("x")}); n != 1 {
			c.Fatal("append-error", "append failed: %v", err)
		}
		ci, err := s.meta.GetLastChunk(fw.Ctx(), other)
		fw.Must(err)
		rng := newRand(c.Rng.Int63())
		c.Go(&wg, "holder", func() {
			for !stop.Load() {
				rc, err := s.prov.GetOpenedChunk(fw.Ctx(), ci.ID, false)
				if err != nil {
					c.Fail("read-error", "the chunk can't be opened: %v", err)
					return
				}
				time.Sleep(time.Duration(rng.Intn(300)) * time.Microsecond)
				s.prov.ReleaseChunk(&rc)
				time.Sleep(time.Duration(rng.Intn(300)) * time.Microsecond)
			}
		})
	}
	defer wg.Wait()
	defer stop.Store(true)
	for op := 0; op < 30 && !c.Failed(); op++ {
		pls := make([][]byte, 1+c.Rng.Intn(8))
		for i := range pls {
			pls[i] = genPayload(c, maxRecSize(cc), fmt.Sprintf("#%d.%d#", op, i))
		}
		at := c.Rng.Intn(12)
		ids, added, err := s.appendCtx(fw.CancelAt(at), lid, pls)
		c.Eval(1)
		if err != nil && added != 0 || len(ids) != added || added > len(pls) {
			c.Fatal("wrong-added", "append of %d records, cancelled: added=%d ids=%d err=%v; cfg=%s", len(pls), added, len(ids), err, sc)
		}
		for i := range ids {
			m = append(m, rec{ids[i], pls[i]})
		}
		switch {
		case err != nil:
			c.Count("cancelled-appends", 1)
		case added < len(pls):
			c.Count("partial-appends", 1)
		}
		c.Distinct("cancelled", at, added, len(pls), err == nil, len(m), sc.Cached)
		// a cancelled read returns an error or what it must
		desc := c.Rng.Intn(2) == 0
		if rs, _, err := s.log.QueryRecords(fw.CancelAt(c.Rng.Intn(12)), storage.QueryRecordsRequest{LogID: lid, Descending: desc, Limit: 3}); err == nil {
			lim := min(3, sc.Log.MaxRecordsLimit, len(m))
			if len(rs) > lim || len(rs) == 0 && lim > 0 {
				c.Fatal("read-mismatch", "read of 3 records, cancelled: %d records without an error, %d are in the log; cfg=%s", len(rs), len(m), sc)
			}
			for i, r := range rs {
				w := m[i]
				if desc {
					w = m[len(m)-1-i]
				}
				if !checkRec(c, "read-mismatch", "cancelled read", r, w, lid) {
					c.Stop()
				}
			}
		}
		if t, n, err := s.log.CountRecords(fw.CancelAt(c.Rng.Intn(12)), storage.QueryRecordsRequest{LogID: lid}); err == nil && (t != uint64(len(m)) || n != t) {
			c.Fatal("wrong-count", "count, cancelled: total=%d count=%d, but %d records are in the log; cfg=%s", t, n, len(m), sc)
		}
		if c.Rng.Intn(4) == 0 {
			d01Read(c, s, []string{lid}, map[string][]rec{lid: m}, sc)
		}
	}
	d01Read(c, s, []string{lid}, map[string][]rec{lid: m}, sc)
}
