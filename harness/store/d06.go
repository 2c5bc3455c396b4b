package store

import (
	"context"
	"fmt"
	"hash/crc32"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/pkg/storage/cache"
	"github.com/solarisdb/solaris/pkg/storage/logfs"
	"verif/harness/fw"
)

func init() {
	fw.Register(&fw.Prop{
		ID: "D06",
		Rule: "a case is a storage configuration with 1-3 simultaneously opened files, 1-2 logs, 2-4 writers and 2-4 readers per log, random delays injected " +
			"before and after every metadata call, some requests are cancelled at a random point (an append stores nothing then, or the prefix it returns); the full history is recorded and checked offline: every read must be a prefix of the final log, at least as " +
			"long as what was acknowledged before it started; non-trivial: a read overlapped an append; distinct by the sequence of read lengths and batch order",
		MinEvents: []string{"reads", "overlapped-reads", "batches", "chunks", "cancelled-appends"},
		Scens: []fw.Scenario{
			{Name: "append-read", Quick: 56, Thorough: 4000, Run: d06Run},
		},
	})
}

// slowMeta injects delays into the metadata calls, so the interleavings around them vary
type slowMeta struct {
	cache.LogsChunksMetaStorage
	max  time.Duration
	seed atomic.Int64
}

func (s *slowMeta) nap() {
	r := rand.New(rand.NewSource(s.seed.Add(7919)))
	if s.max == 0 || r.Intn(3) == 0 {
		return
	}
	time.Sleep(time.Duration(r.Int63n(int64(s.max))))
}

func (s *slowMeta) GetLastChunk(ctx context.Context, l string) (logfs.ChunkInfo, error) {
	s.nap()
	defer s.nap()
	return s.LogsChunksMetaStorage.GetLastChunk(ctx, l)
}

func (s *slowMeta) GetChunks(ctx context.Context, l string) ([]logfs.ChunkInfo, error) {
	s.nap()
	defer s.nap()
	return s.LogsChunksMetaStorage.GetChunks(ctx, l)
}

func (s *slowMeta) UpsertChunkInfos(ctx context.Context, l string, cis []logfs.ChunkInfo) error {
	s.nap()
	defer s.nap()
	return s.LogsChunksMetaStorage.UpsertChunkInfos(ctx, l, cis)
}

type (
	d06Batch struct {
		lid        string
		w, seq     int
		start, end int64
		pls        [][]byte
		ids        []string
	}

	d06Read struct {
		lid          string
		start, end   int64
		desc, paged  bool
		ids          []string
		total, count int64
		isCount      bool
		what         string
	}
)

// taggedPayload makes a payload which may be verified alone
func taggedPayload(r *rand.Rand, w, seq, idx, n, fill int) []byte {
	h := fmt.Sprintf("w%d.b%d.i%d.n%d.", w, seq, idx, n)
	b := make([]byte, len(h)+fill)
	copy(b, h)
	r.Read(b[len(h):])
	c := crc32.ChecksumIEEE(b)
	return append(b, byte(c>>24), byte(c>>16), byte(c>>8), byte(c))
}

func payloadOK(b []byte) (w, seq, idx, n int, ok bool) {
	if len(b) < 5 {
		return
	}
	p := b[:len(b)-4]
	c := crc32.ChecksumIEEE(p)
	t := b[len(b)-4:]
	if byte(c>>24) != t[0] || byte(c>>16) != t[1] || byte(c>>8) != t[2] || byte(c) != t[3] {
		return
	}
	s := string(p)
	if i := strings.Index(s, "."); i < 0 {
		return
	}
	if k, _ := fmt.Sscanf(s, "w%d.b%d.i%d.n%d.", &w, &seq, &idx, &n); k != 4 {
		return
	}
	return w, seq, idx, n, true
}

func d06Run(c *fw.Case) {
	cc := defChunk()
	cc.MaxChunkSize = int64(pick(c, 1, 2, 4)) * blk
	lc := logfs.Config{MaxRecordsLimit: pick(c, 20, 10000), MaxBunchSize: pick(c, 3000, 8192000), MaxLocks: pick(c, 1, 2, 10)}
	nLogs := 1 + c.Rng.Intn(2)
	if lc.MaxLocks < nLogs && c.Rng.Intn(2) == 0 {
		lc.MaxLocks = nLogs
	}
	delay := pick(c, 0, 200*time.Microsecond, time.Millisecond)
	sc := stackCfg{Dir: c.Dir(), MaxOpened: 1 + c.Rng.Intn(3), Chunk: cc, Log: lc, Cached: c.Rng.Intn(4) != 0, InMemMeta: true}
	sm := &slowMeta{max: delay}
	sm.seed.Store(c.Rng.Int63())
	sc.WrapMeta = func(m cache.LogsChunksMetaStorage) cache.LogsChunksMetaStorage {
		sm.LogsChunksMetaStorage = m
		return sm
	}
	s := openStack(sc)
	defer s.close()

	var clock atomic.Int64
	var lock sync.Mutex
	var batches []*d06Batch
	var reads []*d06Read
	var lids []string
	for i := 0; i < nLogs; i++ {
		lids = append(lids, s.newLog(nil))
	}
	nW, nR, nB := 2+c.Rng.Intn(3), 2+c.Rng.Intn(3), 8+c.Rng.Intn(20)
	var wgW, wgR sync.WaitGroup
	stop := make(chan struct{})
	for li, lid := range lids {
		for w := 0; w < nW; w++ {
			rng := rand.New(rand.NewSource(c.Rng.Int63()))
			c.Go(&wgW, "writer", func() {
				for b := 0; b < nB; b++ {
					bt := &d06Batch{lid: lid, w: li*100 + w, seq: b}
					n := 1 + rng.Intn(5)
					if rng.Intn(6) == 0 {
						n = 10 + rng.Intn(20)
					}
					for i := 0; i < n; i++ {
						bt.pls = append(bt.pls, taggedPayload(rng, bt.w, b, i, n, rng.Intn(300)))
					}
					sent := make([][]byte, n)
					for i := range sent {
						sent[i] = append([]byte{}, bt.pls[i]...)
					}
					ctx, cancelled := fw.Ctx(), rng.Intn(8) == 0
					if cancelled {
						ctx = fw.CancelAt(rng.Intn(12))
					}
					bt.start = clock.Add(1)
					ids, added, err := s.appendCtx(ctx, lid, sent)
					bt.end = clock.Add(1)
					if cancelled && err != nil && added == 0 && len(ids) == 0 { // must not be found then
						c.Count("cancelled-appends", 1)
						continue
					}
					if cancelled && err == nil && added > 0 && added < n && len(ids) == added {
						c.Count("partial-appends", 1)
						n, bt.pls = added, bt.pls[:added]
					}
					if err != nil || added != n || len(ids) != n {
						c.Fail("append-failed", "append of %d records to %s: added=%d ids=%d err=%v; cfg=%s", n, lid, added, len(ids), err, sc)
						return
					}
					bt.ids = ids
					lock.Lock()
					batches = append(batches, bt)
					lock.Unlock()
				}
			})
		}
		for r := 0; r < nR; r++ {
			rng := rand.New(rand.NewSource(c.Rng.Int63()))
			c.Go(&wgR, "reader", func() {
				for k := 0; k < 400; k++ {
					select {
					case <-stop:
						return
					default:
					}
					if rng.Intn(8) == 0 { // cancelled, must not hurt others
						_, _, _ = s.log.QueryRecords(fw.CancelAt(rng.Intn(10)), storage.QueryRecordsRequest{LogID: lid, Limit: 10})
					}
					rd := &d06Read{lid: lid, start: clock.Add(1), desc: rng.Intn(2) == 0}
					var err error
					if rng.Intn(4) == 0 {
						rd.isCount, rd.what = true, "count"
						var t, n uint64
						t, n, err = s.log.CountRecords(fw.Ctx(), storage.QueryRecordsRequest{LogID: lid, Descending: rd.desc})
						rd.total, rd.count = int64(t), int64(n)
					} else {
						lim := int64([]int{1, 3, 10, 10000}[rng.Intn(4)])
						rd.what = fmt.Sprintf("read desc=%t limit=%d", rd.desc, lim)
						var rs []*solaris.Record
						rs, err = s.readAll(c, lid, "", rd.desc, lim)
						for _, r := range rs {
							if _, _, _, _, ok := payloadOK(r.Payload); !ok {
								c.Fail("torn-payload", "%s: the record %s payload is damaged: %s", rd.what, r.ID, short(r.Payload))
								return
							}
							rd.ids = append(rd.ids, r.ID)
						}
					}
					rd.end = clock.Add(1)
					if err != nil {
						c.Fail("read-failed", "%s of %s failed: %v; cfg=%s", rd.what, lid, err, sc)
						return
					}
					lock.Lock()
					reads = append(reads, rd)
					lock.Unlock()
					if rng.Intn(3) == 0 {
						time.Sleep(time.Duration(rng.Intn(500)) * time.Microsecond)
					}
				}
			})
		}
	}
	wgW.Wait()
	time.Sleep(time.Millisecond)
	close(stop)
	wgR.Wait()
	if c.Failed() {
		return
	}
	shape := ""
	for _, lid := range lids {
		shape += d06Check(c, s, lid, batches, reads, sc)
		cis, err := s.meta.GetChunks(fw.Ctx(), lid)
		fw.Must(err)
		c.Count("chunks", len(cis))
	}
	c.Distinct(shape)
	c.Count("batches", len(batches))
	c.Sample("%s logs=%d writers=%d readers=%d batches=%d reads=%d", sc, nLogs, nW, nR, len(batches), len(reads))
}

// d06Check checks the recorded history of one log
func d06Check(c *fw.Case, s *stack, lid string, batches []*d06Batch, reads []*d06Read, sc stackCfg) string {
	rs, err := s.readAll(c, lid, "", false, 10000)
	if err != nil {
		c.Fail("read-failed", "the final read of %s failed: %v", lid, err)
		return ""
	}
	pos := map[string]int{}
	final := make([]string, len(rs))
	for i, r := range rs {
		if i > 0 && r.ID <= final[i-1] {
			c.Fail("order", "the final read of %s: ID %s goes after %s", lid, r.ID, final[i-1])
		}
		final[i] = r.ID
		pos[r.ID] = i
	}
	var bs []*d06Batch
	total := 0
	shape := ""
	for _, b := range batches {
		if b.lid != lid {
			continue
		}
		bs = append(bs, b)
		total += len(b.ids)
		for i, id := range b.ids {
			p, ok := pos[id]
			if !ok {
				c.Fail("lost", "the acknowledged record %s (writer %d batch %d #%d) is not returned by the final read of %d records; cfg=%s", id, b.w, b.seq, i, len(rs), sc)
				return ""
			}
			if string(rs[p].Payload) != string(b.pls[i]) {
				c.Fail("wrong-payload", "the record %s payload is not what was acknowledged; cfg=%s", id, sc)
			}
			if i > 0 && p != pos[b.ids[i-1]]+1 {
				c.Fail("batch-split", "the batch %d of the writer %d is not contiguous: record #%d at %d, the previous one at %d; cfg=%s", b.seq, b.w, i, p, pos[b.ids[i-1]], sc)
			}
		}
	}
	if total != len(rs) {
		c.Fail("extra", "the final read of %s returned %d records, but %d were acknowledged; cfg=%s", lid, len(rs), total, sc)
	}
	sort.Slice(bs, func(i, j int) bool { return pos[bs[i].ids[0]] < pos[bs[j].ids[0]] })
	// the real-time order: maxStart of the batches so far must not exceed the end of the following ones
	maxStart := int64(0)
	for _, b := range bs {
		if b.end < maxStart {
			c.Fail("realtime-order", "the batch %d of the writer %d was acknowledged before another one started, but goes after it; cfg=%s", b.seq, b.w, sc)
		}
		maxStart = max(maxStart, b.start)
		shape += fmt.Sprintf("%d.", b.w)
	}
	// reads
	cum := make([]int, len(bs)+1)
	for i, b := range bs {
		cum[i+1] = cum[i] + len(b.ids)
	}
	for _, rd := range reads {
		if rd.lid != lid {
			continue
		}
		c.Eval(1)
		acked, issued, ov := 0, 0, false
		for i, b := range bs {
			if b.end < rd.start {
				acked = cum[i+1]
			}
			if b.start < rd.end {
				issued += len(b.ids)
				if b.end > rd.start {
					ov = true
				}
			}
		}
		if ov {
			c.Count("overlapped-reads", 1)
		}
		if rd.isCount {
			c.Count("counts", 1)
			if rd.total != rd.count || rd.total < int64(acked) || rd.total > int64(issued) {
				c.Fail("wrong-count", "%s of %s reported total=%d count=%d, but %d records had been acknowledged before it started and %d were issued before it ended; cfg=%s", rd.what, lid, rd.total, rd.count, acked, issued, sc)
			}
			continue
		}
		c.Count("reads", 1)
		shape += fmt.Sprintf("%d,", len(rd.ids))
		if len(rd.ids) < acked {
			c.Fail("stale-read", "%s of %s returned %d records, but %d had been acknowledged before it started; cfg=%s", rd.what, lid, len(rd.ids), acked, sc)
			continue
		}
		for i := range rd.ids {
			j := i
			if rd.desc {
				j = len(rd.ids) - 1 - i
			}
			if j >= len(final) || final[j] != rd.ids[i] {
				c.Fail("not-a-prefix", "%s of %s: the record #%d of %d is %s, which is not the record #%d of the log; cfg=%s", rd.what, lid, i, len(rd.ids), rd.ids[i], j, sc)
				break
			}
		}
	}
	return shape
}
