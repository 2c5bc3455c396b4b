package store

import (
	"archive/zip"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/golibs/container/lru"
	serrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/files"
	"github.com/solarisdb/solaris/golibs/sss"
	"github.com/solarisdb/solaris/golibs/ulidutils"
	"github.com/solarisdb/solaris/pkg/storage/chunkfs"
	"github.com/solarisdb/solaris/pkg/storage/logfs"
	"verif/harness/fw"
)

func init() {
	fw.Register(&fw.Prop{
		ID: "R02",
		Rule: "a case runs the background scanner (every few milliseconds, PRNG-chosen sync and sweep thresholds) against 1-2 logs being appended and read, with a remote storage " +
			"which fails at times; then the load stops, the faults are cleared and the outcome is checked: everything acknowledged is readable, every local file has an " +
			"equal remote copy, the folders over the upper threshold are swept, the oldest files first, a stopped scanner stops; non-trivial: the scanner uploaded or swept " +
			"something while the load was on; distinct by the configuration and the number of uploads",
		MinEvents: []string{"presynced", "strays", "uploads-under-load", "replicated", "swept", "swept-under-load", "scanner-stops", "remote-reads", "cancelled-sweeps", "idle-checks"},
		Scens: []fw.Scenario{
			{Name: "scanner", Quick: 48, Thorough: 2400, Run: r02Run},
			{Name: "sweep-load", Quick: 64, Thorough: 3200, Run: r02SweepLoad},
			{Name: "sweep", Quick: 64, Thorough: 3200, Run: r02Sweep},
			{Name: "stop", Quick: 8, Thorough: 200, Run: r02Stop},
		},
	})
	fw.Register(&fw.Prop{
		ID: "R03",
		Rule: "a case runs 4-10 goroutines which append, read, upload, download, move away (upload and delete locally) the files of 1-2 logs through one storage, with random delays in the " +
			"remote storage and few opened files; every uploaded object is inspected: it must be a full-check-clean file which holds every record acknowledged before its upload " +
			"started, and no append may be acknowledged inside the file while it is being moved away; every operation must end; non-trivial: the operations overlapped; " +
			"distinct by the order of the remote calls",
		MinEvents: []string{"inspected", "exclusive-checks", "moved", "appends", "reads", "conflicts", "impatient", "blocked-requests", "blocked-reads"},
		Scens: []fw.Scenario{
			{Name: "contention", Quick: 64, Thorough: 4000, Run: r03Run},
			{Name: "blocked", Quick: 160, Thorough: 6000, Run: r03Blocked},
		},
	})
	fw.Register(&fw.Prop{
		ID: "R04",
		Rule: "a case runs 2-10 goroutines which take and release the opened files (more than may be opened at once), some with short deadlines, some of the files cannot be opened for " +
			"a while; the monitor counts the mapped files of the process (/proc/self/maps) and the held ones, reads the content through the held handles, and closes the " +
			"storage in the middle; non-trivial: someone had to wait; distinct by the grant order",
		MinEvents: []string{"acquired", "waits", "maps-checks", "open-failures", "timeouts", "closed-refused", "held-over-close", "free-after-failure", "damaged-files"},
		Scens: []fw.Scenario{
			{Name: "handles", Quick: 160, Thorough: 8000, Run: r04Run},
			{Name: "failing-open", Quick: 160, Thorough: 4000, Run: r04Failing},
			{Name: "close", Quick: 160, Thorough: 4000, Run: r04Close},
			{Name: "refused-append", Quick: 40, Thorough: 800, Run: r04Refused},
		},
	})
}

// loadGen appends and reads until stopped, the model is what was acknowledged
type loadGen struct {
	c     *fw.Case
	s     *stack
	lids  []string
	lock  sync.Mutex
	model map[string][]rec
	wg    sync.WaitGroup
	stop  atomic.Bool
	pause time.Duration
	cut   bool // some of the requests have too little time
}

func (lg *loadGen) ctx(rng *rand.Rand) (context.Context, context.CancelFunc) {
	if !lg.cut || rng.Intn(3) > 0 {
		return context.WithCancel(context.Background())
	}
	lg.c.Count("impatient", 1)
	if rng.Intn(2) == 0 {
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		return ctx, cancel
	}
	return context.WithTimeout(context.Background(), time.Duration(rng.Intn(2000))*time.Microsecond)
}

// cutShort is the outcome which only an impatient request may have
func (lg *loadGen) cutShort(err error) bool {
	return lg.cut && (errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded))
}

func transient(err error) bool {
	return errors.Is(err, serrors.ErrNotExist) || errors.Is(err, serrors.ErrConflict) || errors.Is(err, errRemote) || errors.Is(err, zip.ErrFormat) || errors.Is(err, zip.ErrChecksum) ||
		errors.Is(err, io.ErrUnexpectedEOF) || strings.Contains(err.Error(), "flate:") || errors.Is(err, zip.ErrAlgorithm) || errors.Is(err, serrors.ErrDataLoss)
}

func (lg *loadGen) start(writers, readers int) {
	c := lg.c
	for _, lid := range lg.lids {
		for w := 0; w < writers; w++ {
			rng := rand.New(rand.NewSource(c.Rng.Int63()))
			c.Go(&lg.wg, "writer", func() {
				for b := 0; !lg.stop.Load(); b++ {
					n := 1 + rng.Intn(5)
					var pls [][]byte
					for i := 0; i < n; i++ {
						pls = append(pls, taggedPayload(rng, w, b, i, n, rng.Intn(400)))
					}
					ctx, cancel := lg.ctx(rng)
					ids, added, err := lg.s.appendCtx(ctx, lid, pls)
					cancel()
					if err != nil && !transient(err) && !lg.cutShort(err) {
						c.Fail("append-error", "append failed: %v", err)
						return
					}
					if err == nil && added != n {
						c.Fail("partly-appended", "an append of %d records succeeded with %d of them", n, added)
					}
					lg.lock.Lock()
					for i := 0; i < added; i++ {
						lg.model[lid] = append(lg.model[lid], rec{ids[i], pls[i]})
					}
					lg.lock.Unlock()
					c.Count("appends", 1)
					if lg.pause > 0 {
						time.Sleep(time.Duration(rng.Int63n(int64(lg.pause))))
					}
				}
			})
		}
		for r := 0; r < readers; r++ {
			rng := rand.New(rand.NewSource(c.Rng.Int63()))
			c.Go(&lg.wg, "reader", func() {
				for !lg.stop.Load() {
					lg.lock.Lock()
					acked := len(lg.model[lid])
					lg.lock.Unlock()
					rs, err := lg.s.readAll(c, lid, "", rng.Intn(2) == 0, 10000)
					if err != nil && !transient(err) {
						c.Fail("read-error", "read failed: %v", err)
						return
					}
					if err == nil && len(rs) < acked {
						c.Fail("lost", "a read of %s under the load returned %d records, but %d had been acknowledged", lid, len(rs), acked)
						return
					}
					for _, r := range rs {
						if _, _, _, _, ok := payloadOK(r.Payload); !ok {
							c.Fail("torn-payload", "the record %s payload is damaged: %s", r.ID, short(r.Payload))
							return
						}
					}
					c.Count("reads", 1)
					if lg.pause > 0 {
						time.Sleep(time.Duration(rng.Int63n(int64(lg.pause))))
					}
				}
			})
		}
	}
}

// checkFinal reads everything when the load is stopped
func (lg *loadGen) checkFinal(what string) {
	c := lg.c
	for _, l := range lg.lids {
		var rs []*solaris.Record
		var err error
		for i := 0; i < 200; i++ {
			// the scanner may be working with a file, so the read is allowed to fail for a moment
			rs, err = lg.s.readAll(c, l, "", false, 10000)
			if err == nil || !transient(err) {
				break
			}
			time.Sleep(2 * time.Millisecond)
		}
		c.Eval(1)
		if err != nil {
			c.Fail("unreadable", "%s: reading of %s with %d records failed: %v", what, l, len(lg.model[l]), err)
			return
		}
		m := lg.model[l]
		sortRecs(m)
		compareAll(c, "lost-or-damaged", l, rs, m, false)
	}
}

func sortRecs(m []rec) {
	for i := 1; i < len(m); i++ {
		for j := i; j > 0 && m[j].id < m[j-1].id; j-- {
			m[j], m[j-1] = m[j-1], m[j]
		}
	}
}

func unzipOne(b []byte) ([]byte, error) {
	zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return nil, err
	}
	if len(zr.File) != 1 {
		return nil, fmt.Errorf("%d files in the object", len(zr.File))
	}
	f, err := zr.File[0].Open()
	if err != nil {
		return nil, err
	}
	return io.ReadAll(f)
}

func eventually(d time.Duration, f func() bool) bool {
	dl := time.Now().Add(d)
	for time.Now().Before(dl) {
		if f() {
			return true
		}
		time.Sleep(3 * time.Millisecond)
	}
	return f()
}

func r02Run(c *fw.Case) {
	if c.Rng.Intn(2) == 0 {
		defer fw.SlowLog(time.Duration(1+c.Rng.Intn(4)) * time.Millisecond)()
	}
	cc := chunkfs.Config{NewSize: blk, MaxChunkSize: int64(pick(c, 2, 4)) * blk, MaxGrowIncreaseSize: blk}
	mem := newMemStorage()
	fs := newFaultStorage(mem, c.Rng.Int63())
	fs.putP, fs.getP = pick(c, 0, 10, 40), pick(c, 0, 10, 40)
	fs.delay = time.Duration(c.Rng.Intn(2000)+1) * time.Microsecond
	sc := stackCfg{Dir: c.Dir(), MaxOpened: 1 + c.Rng.Intn(3), Chunk: cc, Log: logfs.Config{MaxRecordsLimit: 100000, MaxBunchSize: 1 << 23, MaxLocks: 10}, Cached: true, Remote: fs, InMemMeta: true}
	s := openStack(sc)
	defer func() { s.close() }()
	lg := &loadGen{c: c, s: s, model: map[string][]rec{}, pause: time.Duration(c.Rng.Intn(3000)+1) * time.Microsecond}
	for i := 0; i < 1+c.Rng.Intn(2); i++ {
		lg.lids = append(lg.lids, s.newLog(nil))
	}
	scfg := chunkfs.ScannerConfig{DataPath: respell(c, s.data), SyncWorkers: 1 + c.Rng.Intn(4), GlobalSyncTimeout: time.Duration(1+c.Rng.Intn(6)) * time.Millisecond,
		RemoteSyncThreshold: time.Duration(pick(c, 5, 20, 40)) * time.Millisecond, SweepMaxThresholdSize: 1 << 40, SweepMinThresholdSize: 1 << 40}
	if c.Rng.Intn(2) == 0 {
		scfg.SweepMaxThresholdSize = int64(1+c.Rng.Intn(6)) * blk
		scfg.SweepMinThresholdSize = scfg.SweepMaxThresholdSize / int64(1+c.Rng.Intn(3))
	}
	scn := chunkfs.NewScanner(s.repl, scfg)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	fs.set(true)
	fw.Must(scn.Init(ctx))
	lg.start(1+c.Rng.Intn(2), 1)
	time.Sleep(time.Duration(60+c.Rng.Intn(150)) * time.Millisecond)
	lg.stop.Store(true)
	lg.wg.Wait()
	mem.lock.Lock()
	up := mem.puts
	mem.lock.Unlock()
	c.Count("uploads-under-load", up)
	fs.set(false)
	if c.Failed() {
		return
	}
	g0 := mem.nGets()
	lg.checkFinal(fmt.Sprintf("after the load; scanner=%+v faults=%s", scfg, fs))
	if mem.nGets() != g0 {
		c.Count("remote-reads", 1)
	}
	// every local file has an equal remote copy
	why := ""
	ok := eventually(8*time.Second, func() bool {
		why = ""
		for _, f := range localFiles(s.data) {
			nm := filepath.Base(f)
			if len(nm) != 26 {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				continue // is just swept
			}
			mem.lock.Lock()
			z := mem.m["/"+nm[24:]+"/"+nm]
			mem.lock.Unlock()
			if z == nil {
				why = "the file " + nm + " is not replicated"
				return false
			}
			u, err := unzipOne(z)
			if err != nil {
				why = "the remote object of " + nm + " is damaged: " + err.Error()
				return false
			}
			if !bytes.Equal(u, b) {
				why = fmt.Sprintf("the remote copy of %s is not what the local file is: %d and %d bytes, records %d and %d", nm, len(u), len(b), u[11], b[11])
				return false
			}
			c.Count("replicated", 1)
		}
		return true
	})
	if !ok {
		c.Fail("not-replicated", "8 seconds after the last change (the sync threshold is %s, the scan period is %s) %s; cfg=%s", scfg.RemoteSyncThreshold, scfg.GlobalSyncTimeout, why, sc)
		return
	}
	// what is replicated and is not changed since then is not replicated again. Nothing is swept here
	if scfg.SweepMaxThresholdSize == 1<<40 {
		n := 0
		if !eventually(8*time.Second, func() bool {
			p0 := mem.nPuts()
			time.Sleep(8*scfg.GlobalSyncTimeout + 60*time.Millisecond)
			n = mem.nPuts() - p0
			return n == 0
		}) {
			c.Fail("replicated-again", "%d uploads are done at the end of 8 seconds, though nothing was changed since everything was replicated: %+v", n, scfg)
		}
		c.Count("idle-checks", 1)
	}
	c.Distinct(fmt.Sprint(scfg), up)
	c.Sample("%+v uploads=%d faults=%s", scfg, up, fs)
	// the local disk is lost, the acknowledged records are still there
	cancel()
	time.Sleep(20 * time.Millisecond)
	s.prov.Shutdown()
	for _, f := range localFiles(s.data) {
		_ = os.Remove(f)
	}
	s2 := *s
	s2.prov = chunkfs.NewProvider(s.data, 3, cc)
	s2.ca = chunkfs.NewChunkAccessor()
	s2.repl = chunkfs.NewReplicator(s2.prov.GetFileNameByID)
	s2.repl.CA, s2.repl.Storage, s2.prov.CA, s2.prov.Replicator = s2.ca, mem, s2.ca, s2.repl
	ll := logfs.NewLocalLog(sc.Log)
	ll.LMStorage, ll.ChnkProvider = s2.meta, s2.prov
	s2.log = ll
	lg.s = &s2
	lg.checkFinal("after the local files were lost")
	c.Count("remote-reads", 1)
	ll.Shutdown()
	s2.prov.Shutdown()
}

// r02SweepLoad: a folder with the files of many logs is constantly swept, while the logs are being appended
func r02SweepLoad(c *fw.Case) {
	if c.Rng.Intn(2) == 0 {
		defer fw.SlowLog(time.Duration(1+c.Rng.Intn(4)) * time.Millisecond)()
	}
	cc := chunkfs.Config{NewSize: blk, MaxChunkSize: int64(pick(c, 2, 8)) * blk, MaxGrowIncreaseSize: blk}
	mem := newMemStorage()
	fs := newFaultStorage(mem, c.Rng.Int63())
	fs.putP = pick(c, 0, 0, 20)
	fs.delay = time.Duration(c.Rng.Intn(3000)+1) * time.Microsecond
	sc := stackCfg{Dir: c.Dir(), MaxOpened: 1 + c.Rng.Intn(2), Chunk: cc, Log: logfs.Config{MaxRecordsLimit: 100000, MaxBunchSize: 1 << 23, MaxLocks: 10}, Cached: true, Remote: fs, InMemMeta: true}
	s := openStack(sc)
	defer func() { s.close() }()
	n := 5 + c.Rng.Intn(6)
	model := map[string][]rec{}
	var lids []string
	sfx := pick(c, "AB", "ZZ", "00")
	// the first file of every log is in the same folder
	for i := 0; i < n; i++ {
		lid := s.newLog(nil)
		id := ulidutils.NewID()[:24] + sfx
		fn := s.prov.GetFileNameByID(id)
		fw.Must(files.EnsureFileExists(fn))
		ch := chunkfs.NewChunk(fn, id, cc)
		fw.Must(ch.Open(false))
		rs := toRecs([][]byte{taggedPayload(c.Rng, i, 0, 0, 1, 20)})
		ar, err := ch.AppendRecords(rs)
		fw.Must(err)
		fw.Must(ch.Close())
		fw.Must(s.meta.UpsertChunkInfos(fw.Ctx(), lid, []logfs.ChunkInfo{{ID: id, Min: ar.StartID, Max: ar.LastID, RecordsCount: 1}}))
		model[lid] = []rec{{rs[0].ID, rs[0].Payload}}
		lids = append(lids, lid)
	}
	scfg := chunkfs.ScannerConfig{DataPath: respell(c, s.data), SyncWorkers: 1 + c.Rng.Intn(2), GlobalSyncTimeout: time.Duration(1+c.Rng.Intn(3)) * time.Millisecond,
		RemoteSyncThreshold: time.Duration(pick(c, 1, 3, 10)) * time.Millisecond, SweepMaxThresholdSize: int64(1+c.Rng.Intn(4)) * blk}
	scfg.SweepMinThresholdSize = 1 + c.Rng.Int63n(scfg.SweepMaxThresholdSize)
	scn := chunkfs.NewScanner(s.repl, scfg)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	fs.set(true)
	fw.Must(scn.Init(ctx))
	apps := 0
	end := time.Now().Add(time.Duration(80+c.Rng.Intn(120)) * time.Millisecond)
	for b := 1; time.Now().Before(end); b++ {
		lid := lids[c.Rng.Intn(n)]
		pls := [][]byte{taggedPayload(c.Rng, 0, b, 0, 1, c.Rng.Intn(60))}
		ids, added, err := s.append(lid, pls)
		if err != nil && !transient(err) {
			c.Fail("append-error", "append failed: %v", err)
			return
		}
		if added == 1 {
			model[lid] = append(model[lid], rec{ids[0], pls[0]})
			apps++
		}
		if c.Rng.Intn(3) == 0 {
			time.Sleep(time.Duration(c.Rng.Intn(2000)) * time.Microsecond)
		}
	}
	c.Count("appends", apps)
	fs.set(false)
	lg := &loadGen{c: c, s: s, lids: lids, model: model}
	lg.checkFinal(fmt.Sprintf("after sweeping under the load; scanner=%+v faults=%s", scfg, fs))
	mem.lock.Lock()
	up := mem.puts
	mem.lock.Unlock()
	c.Count("swept-under-load", up)
	c.Distinct(fmt.Sprint(scfg), apps, up)
}

// r02Sweep: the idle files of a folder over the threshold are swept, the oldest first
func r02Sweep(c *fw.Case) {
	dir := filepath.Join(c.Dir(), "data")
	mem := newMemStorage()
	fs := newFaultStorage(mem, c.Rng.Int63())
	prov := chunkfs.NewProvider(dir, 10, defChunk())
	ca := chunkfs.NewChunkAccessor()
	repl := chunkfs.NewReplicator(prov.GetFileNameByID)
	repl.CA, repl.Storage, prov.CA, prov.Replicator = ca, fs, ca, repl
	defer prov.Shutdown()
	fs.putP = pick(c, 0, 30)
	type f struct {
		id   string
		size int64
		age  int
		fn   string
	}
	var fs1 []f
	n := 3 + c.Rng.Intn(8)
	total := int64(0)
	sfx := pick(c, "AB", "ZZ", "00")
	for i := 0; i < n; i++ {
		id := ulidutils.NewID()[:24] + sfx
		fn := prov.GetFileNameByID(id)
		fw.Must(files.EnsureFileExists(fn))
		ch := chunkfs.NewChunk(fn, id, defChunk())
		fw.Must(ch.Open(false))
		for k := 0; k < c.Rng.Intn(5); k++ {
			_, err := ch.AppendRecords(toRecs([][]byte{make([]byte, c.Rng.Intn(3000))}))
			fw.Must(err)
		}
		fw.Must(ch.Close())
		fi, err := os.Stat(fn)
		fw.Must(err)
		x := f{id: id, size: fi.Size(), age: c.Rng.Intn(100000), fn: fn}
		total += x.size
		fs1 = append(fs1, x)
	}
	tm := time.Now().Add(-1000 * time.Hour)
	content := map[string][]byte{}
	for _, x := range fs1 {
		fw.Must(os.Chtimes(x.fn, tm, tm.Add(time.Duration(x.age)*time.Second)))
		b, err := os.ReadFile(x.fn)
		fw.Must(err)
		content[x.id] = b
	}
	scfg := chunkfs.ScannerConfig{DataPath: dir, SyncWorkers: 1, GlobalSyncTimeout: 4 * time.Millisecond, RemoteSyncThreshold: 10000 * time.Hour,
		SweepMaxThresholdSize: 1 + c.Rng.Int63n(total*5/4)}
	scfg.SweepMinThresholdSize = 1 + c.Rng.Int63n(scfg.SweepMaxThresholdSize)
	held := ""
	var h lru.Releasable[*chunkfs.Chunk]
	if c.Rng.Intn(3) == 0 {
		held = fs1[c.Rng.Intn(n)].id
		var err error
		h, err = prov.GetOpenedChunk(fw.Ctx(), held, false)
		fw.Must(err)
	}
	// the files which are not the storage files: they are nobody's business
	strays := map[string][]byte{}
	if c.Rng.Intn(2) == 0 {
		for _, s := range []string{ulidutils.NewID() + ".zip", ulidutils.NewID() + ".tmp", ulidutils.NewID() + "0", "a", "notes.txt", ulidutils.NewID()[:25]} {
			fn := filepath.Join(filepath.Dir(fs1[0].fn), s)
			b := make([]byte, 1+c.Rng.Intn(100))
			c.Rng.Read(b)
			fw.Must(os.WriteFile(fn, b, 0o600))
			fw.Must(os.Chtimes(fn, tm, tm))
			strays[fn] = b
		}
		c.Count("strays", len(strays))
	}
	synced := c.Rng.Intn(3) == 0 && held == ""
	if synced {
		// everything is replicated before the folder becomes too big
		pcfg := scfg
		pcfg.RemoteSyncThreshold, pcfg.SweepMaxThresholdSize, pcfg.SweepMinThresholdSize = time.Millisecond, 1<<60, 1<<60
		pctx, pcancel := context.WithCancel(context.Background())
		fw.Must(chunkfs.NewScanner(repl, pcfg).Init(pctx))
		ok := eventually(8*time.Second, func() bool {
			mem.lock.Lock()
			defer mem.lock.Unlock()
			return len(mem.m) >= n
		})
		time.Sleep(10 * time.Millisecond) // the scan is ended and its results are stored
		pcancel()
		time.Sleep(10 * time.Millisecond)
		if !ok {
			c.Fail("not-replicated", "%d of %d files are replicated for 8 seconds", len(mem.m), n)
			return
		}
		c.Count("presynced", 1)
	}
	scn := chunkfs.NewScanner(repl, scfg)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	early := c.Rng.Intn(3) == 0
	if early {
		// the scanner is stopped in the middle of sweeping
		k := int64(1 + c.Rng.Intn(n))
		var calls atomic.Int64
		fs.onPut = func() {
			if calls.Add(1) == k {
				cancel()
			}
		}
		c.Count("cancelled-sweeps", 1)
	}
	fs.set(true)
	fw.Must(scn.Init(ctx))
	remaining := func() (int64, []f, []f) {
		sz := int64(0)
		var kept, swept []f
		for _, x := range fs1 {
			if _, err := os.Stat(x.fn); err == nil {
				sz += x.size
				kept = append(kept, x)
			} else {
				swept = append(swept, x)
			}
		}
		return sz, kept, swept
	}
	time.Sleep(15 * time.Millisecond)
	fs.set(false)
	want := func() bool {
		sz, kept, _ := remaining()
		if ctx.Err() != nil {
			return true
		}
		return sz < scfg.SweepMaxThresholdSize || len(kept) == 0 || len(kept) == 1 && kept[0].id == held
	}
	if !eventually(8*time.Second, want) {
		sz, kept, swept := remaining()
		c.Fail("not-swept", "the folder size is %d of %d and over the threshold %d for 8 seconds, kept=%v swept=%v held=%s", sz, total, scfg.SweepMaxThresholdSize, kept, swept, held)
		return
	}
	if !early && fs.putP == 0 && held == "" && total >= scfg.SweepMaxThresholdSize {
		// nothing is in the way of the sweeping
		if !eventually(8*time.Second, func() bool {
			sz, kept, _ := remaining()
			return sz < scfg.SweepMinThresholdSize || len(kept) == 0
		}) {
			sz, kept, swept := remaining()
			c.Fail("swept-too-little", "the folder size is %d of %d and over the lower threshold %d for 8 seconds, the upper one is %d, kept=%v swept=%v", sz, total, scfg.SweepMinThresholdSize,
				scfg.SweepMaxThresholdSize, kept, swept)
			return
		}
		c.Count("swept-down", 1)
	}
	cancel()
	// the sweeping which is in progress goes on until the lower threshold is reached
	sz, kept, swept := remaining()
	for i := 0; i < 8; i++ {
		time.Sleep(8 * time.Millisecond)
		sz1, k1, s1 := remaining()
		if len(k1) != len(kept) {
			i = -1
		}
		sz, kept, swept = sz1, k1, s1
	}
	c.Eval(1)
	c.Count("swept", len(swept))
	for fn, b := range strays {
		if g, err := os.ReadFile(fn); err != nil || !bytes.Equal(g, b) {
			c.Fail("stray-touched", "the file %s is not a storage file, but it is changed by the scanner: %v", fn, err)
		}
	}
	mem.lock.Lock()
	for k := range mem.m {
		if content[filepath.Base(k)] == nil {
			c.Fail("stray-uploaded", "the object %s is in the remote storage, but there was no such storage file", k)
		}
	}
	mem.lock.Unlock()
	what := fmt.Sprintf("total=%d left=%d max=%d min=%d kept=%v swept=%v held=%s presynced=%t faults=%s", total, sz, scfg.SweepMaxThresholdSize, scfg.SweepMinThresholdSize, kept, swept, held, synced, fs)
	if total < scfg.SweepMaxThresholdSize && len(swept) > 0 {
		c.Fail("swept-early", "the folder is below the threshold, but some files are swept: %s", what)
	}
	for _, x := range swept {
		if x.id == held {
			c.Fail("swept-opened", "the file which is opened is swept: %s", what)
		}
		mem.lock.Lock()
		z := mem.m["/"+sfx+"/"+x.id]
		mem.lock.Unlock()
		u, err := unzipOne(z)
		if err != nil || !bytes.Equal(u, content[x.id]) {
			c.Fail("swept-lost", "the swept file %s (%d bytes) is not equal to its remote copy: %v; %s", x.id, x.size, err, what)
		}
		for _, y := range kept {
			if fs.putP == 0 && y.age < x.age && y.id != held {
				c.Fail("sweep-order", "the file %s (mtime %d) is swept, but the older %s (mtime %d) is kept: %s", x.id, x.age, y.id, y.age, what)
			}
		}
	}
	if fs.putP == 0 && held == "" && len(swept) > 0 {
		// not more than needed: the last swept one was the one which crossed the lower threshold
		last := swept[0]
		for _, x := range swept {
			if x.age > last.age {
				last = x
			}
		}
		if sz+last.size < scfg.SweepMinThresholdSize {
			c.Fail("swept-too-much", "the folder was swept below the lower threshold further than needed: %s", what)
		}
	}
	if held != "" {
		cr, err := h.Value().OpenChunkReader(false)
		if err != nil {
			c.Fail("held-broken", "the held file cannot be read: %v", err)
		} else {
			for cr.HasNext() {
				cr.Next()
			}
			cr.Close()
		}
		prov.ReleaseChunk(&h)
	}
	// everything is still available
	for _, x := range fs1 {
		var r lru.Releasable[*chunkfs.Chunk]
		var err error
		eventually(5*time.Second, func() bool {
			r, err = prov.GetOpenedChunk(fw.Ctx(), x.id, false)
			return err == nil || !transient(err)
		})
		if err != nil {
			c.Fail("swept-unreadable", "the file %s cannot be opened after sweeping: %v; %s", x.id, err, what)
			continue
		}
		prov.ReleaseChunk(&r)
	}
	c.Distinct(what)
	c.Sample("%s", what)
}

// r02Stop: the scanner stops when it is told to
func r02Stop(c *fw.Case) {
	dir := filepath.Join(c.Dir(), "data")
	mem := newMemStorage()
	fs := newFaultStorage(mem, 1)
	fs.putP, fs.delay = 100, 3*time.Millisecond
	prov := chunkfs.NewProvider(dir, 10, defChunk())
	ca := chunkfs.NewChunkAccessor()
	repl := chunkfs.NewReplicator(prov.GetFileNameByID)
	repl.CA, repl.Storage, prov.CA, prov.Replicator = ca, fs, ca, repl
	defer prov.Shutdown()
	for i := 0; i < 6; i++ {
		id := ulidutils.NewID()
		fn := prov.GetFileNameByID(id)
		fw.Must(files.EnsureFileExists(fn))
		ch := chunkfs.NewChunk(fn, id, defChunk())
		fw.Must(ch.Open(false))
		fw.Must(ch.Close())
	}
	var calls atomic.Int64
	repl.Storage = countStorage{fs, &calls}
	// the scan takes longer than the scan period
	scfg := chunkfs.ScannerConfig{DataPath: dir, SyncWorkers: 2, GlobalSyncTimeout: time.Duration(pick(c, 0, 1, 100)) * time.Microsecond, RemoteSyncThreshold: 0,
		SweepMaxThresholdSize: 1 << 40, SweepMinThresholdSize: 1 << 40}
	scn := chunkfs.NewScanner(repl, scfg)
	ctx, cancel := context.WithCancel(context.Background())
	fs.set(true)
	fw.Must(scn.Init(ctx))
	if !eventually(5*time.Second, func() bool { return calls.Load() > 3 }) {
		c.Fail("scanner-idle", "the scanner did not try to replicate anything in 5 seconds: %+v", scfg)
	}
	cancel()
	stopped := eventually(5*time.Second, func() bool {
		k := calls.Load()
		time.Sleep(100 * time.Millisecond)
		return k == calls.Load()
	})
	c.Eval(1)
	if !stopped {
		c.Fail("scanner-endless", "the scanner keeps working 5 seconds after its context was cancelled: %+v", scfg)
		fs.set(false)
	}
	c.Count("scanner-stops", 1)
	c.Distinct(scfg.GlobalSyncTimeout)
}

type countStorage struct {
	sss.Storage
	n *atomic.Int64
}

func (cs countStorage) Put(ctx context.Context, key string, r io.Reader) error {
	cs.n.Add(1)
	return cs.Storage.Put(ctx, key, r)
}

// inspectStorage checks every uploaded object
// inspectStorage looks into every uploaded object and checks that the operations with one file exclude each other
type inspectStorage struct {
	sss.Storage
	c    *fw.Case
	f    func(key string, b []byte)
	file func(id string) string
	lock sync.Mutex
	busy map[string]string
}

func (is *inspectStorage) enter(key, op string) func() {
	is.lock.Lock()
	defer is.lock.Unlock()
	if o, ok := is.busy[key]; ok {
		is.c.Fail("not-exclusive", "%s of %s is started while its %s is in progress", op, key, o)
	}
	is.busy[key] = op
	return func() {
		is.lock.Lock()
		defer is.lock.Unlock()
		delete(is.busy, key)
	}
}

func (is *inspectStorage) Put(ctx context.Context, key string, r io.Reader) error {
	defer is.enter(key, "an upload")()
	fn := is.file(filepath.Base(key))
	was, err1 := os.ReadFile(fn)
	b, err := io.ReadAll(r)
	if err != nil {
		return err
	}
	is.f(key, b)
	err = is.Storage.Put(ctx, key, bytes.NewReader(b))
	now, err2 := os.ReadFile(fn)
	if err1 != nil || err2 != nil || !bytes.Equal(was, now) {
		is.c.Fail("changed-while-uploading", "the file %s is changed (%d and %d bytes) or removed (%v) while it is being uploaded", key, len(was), len(now), err2)
	}
	is.c.Count("exclusive-checks", 1)
	return err
}

func (is *inspectStorage) Get(ctx context.Context, key string) (io.ReadCloser, error) {
	defer is.enter(key, "a download")()
	return is.Storage.Get(ctx, key)
}

// respell names the folder in another way
func respell(c *fw.Case, dir string) string {
	d, n := filepath.Split(dir)
	switch c.Rng.Intn(6) {
	case 0:
		return dir + "/"
	case 1:
		return d + "./" + n
	case 2:
		return d + "/" + n
	case 3:
		l := filepath.Clean(dir) + "-link"
		fw.Must(os.Symlink(n, l))
		return l
	}
	return dir
}
