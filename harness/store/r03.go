package store

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/solarisdb/solaris/golibs/container/lru"
	serrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/files"
	"github.com/solarisdb/solaris/golibs/ulidutils"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/pkg/storage/chunkfs"
	"github.com/solarisdb/solaris/pkg/storage/logfs"
	"verif/harness/fw"
)

// readImage opens the chunk image with the full check and returns its record IDs
func readImage(fn string, img []byte, cfg chunkfs.Config) (ids []string, err error) {
	if err := os.WriteFile(fn, img, 0o644); err != nil {
		return nil, err
	}
	defer os.Remove(fn)
	ch := chunkfs.NewChunk(fn, "image", cfg)
	if err := ch.Open(true); err != nil {
		return nil, err
	}
	defer ch.Close()
	cr, err := ch.OpenChunkReader(false)
	if err != nil {
		return nil, err
	}
	defer cr.Close()
	for cr.HasNext() {
		r, _ := cr.Next()
		if _, _, _, _, ok := payloadOK(r.UnsafePayload); !ok {
			return nil, fmt.Errorf("the record %s payload is damaged: %s", r.ID, short(r.UnsafePayload))
		}
		ids = append(ids, r.ID.String())
	}
	return ids, nil
}

func r03Run(c *fw.Case) {
	if c.Rng.Intn(3) == 0 {
		defer fw.SlowLog(time.Duration(1+c.Rng.Intn(2000)) * time.Microsecond)()
	}
	cc := chunkfs.Config{NewSize: blk, MaxChunkSize: int64(pick(c, 2, 4, 8)) * blk, MaxGrowIncreaseSize: blk}
	mem := newMemStorage()
	fs := newFaultStorage(mem, c.Rng.Int63())
	fs.delay = time.Duration(pick(c, 1, 200, 1500, 6000)) * time.Microsecond
	tmo := pick(c, 40000, 3000)
	sc := stackCfg{Dir: c.Dir(), MaxOpened: 1 + c.Rng.Intn(3), Chunk: cc, Log: logfs.Config{MaxRecordsLimit: 100000, MaxBunchSize: 1 << 23, MaxLocks: 10}, Cached: true, InMemMeta: true}
	lg := &loadGen{c: c, model: map[string][]rec{}, pause: time.Duration(c.Rng.Intn(1500)+1) * time.Microsecond, cut: c.Rng.Intn(2) == 0}
	var order []string
	var olock sync.Mutex
	var ackedBy sync.Map // chunk -> what was acknowledged when the upload operation was requested
	var ninsp atomic.Int64
	var s *stack
	is := &inspectStorage{Storage: fs, c: c, busy: map[string]string{}, file: func(id string) string { return s.prov.GetFileNameByID(id) }, f: func(key string, b []byte) {
		nm := filepath.Base(key)
		olock.Lock()
		order = append(order, nm[22:])
		olock.Unlock()
		img, err := unzipOne(b)
		if err != nil {
			c.Fail("object-damaged", "the uploaded object %s is damaged: %v", key, err)
			return
		}
		ids, err := readImage(filepath.Join(c.Dir(), fmt.Sprintf("img%d", ninsp.Add(1))), img, cc)
		if err != nil {
			c.Fail("object-torn", "the uploaded image of %s is inconsistent: %v", key, err)
			return
		}
		c.Count("inspected", 1)
		c.Eval(1)
		if v, ok := ackedBy.Load(nm); ok {
			// nobody else uploads or appends the chunk now, so it may only be longer than it was acknowledged
			if n := v.(int); len(ids) < n {
				c.Fail("object-stale", "the uploaded image of %s has %d records, but the file had %d acknowledged before the upload was requested", key, len(ids), n)
			}
		}
	}}
	sc.Remote = is
	s = openStack(sc)
	defer func() { s.close() }()
	lg.s = s
	for i := 0; i < 1+c.Rng.Intn(2); i++ {
		lg.lids = append(lg.lids, s.newLog(nil))
	}
	lg.start(1+c.Rng.Intn(2), 1+c.Rng.Intn(2))
	workers := 2 + c.Rng.Intn(4)
	var perChunk sync.Map
	for w := 0; w < workers; w++ {
		rng := rand.New(rand.NewSource(c.Rng.Int63()))
		c.Go(&lg.wg, "replicator", func() {
			for !lg.stop.Load() {
				lid := lg.lids[rng.Intn(len(lg.lids))]
				cis, err := s.meta.GetChunks(fw.Ctx(), lid)
				if err != nil || len(cis) == 0 {
					time.Sleep(time.Millisecond)
					continue
				}
				ci := cis[rng.Intn(len(cis))]
				if rng.Intn(2) == 0 {
					ci = cis[len(cis)-1]
				}
				ctx, cancel := context.WithTimeout(context.Background(), time.Duration(1+rng.Intn(tmo))*time.Microsecond)
				op := rng.Intn(4)
				switch op {
				case 0, 1:
					// one uploader per chunk makes the "not older than requested" check exact
					mu, _ := perChunk.LoadOrStore(ci.ID, &sync.Mutex{})
					if !mu.(*sync.Mutex).TryLock() {
						break
					}
					cis, err := s.meta.GetChunks(fw.Ctx(), lid)
					fw.Must(err)
					for _, x := range cis {
						if x.ID == ci.ID {
							ackedBy.Store(ci.ID, x.RecordsCount)
						}
					}
					if op == 0 {
						err = s.repl.UploadChunk(ctx, ci.ID)
					} else {
						err = s.repl.DeleteChunk(ctx, ci.ID, chunkfs.RFRemoteSync)
					}
					ackedBy.Delete(ci.ID)
					mu.(*sync.Mutex).Unlock()
					switch {
					case err == nil && op == 1:
						c.Count("moved", 1)
					case errors.Is(err, serrors.ErrConflict):
						c.Count("conflicts", 1)
					case err == nil || errors.Is(err, context.DeadlineExceeded) || errors.Is(err, serrors.ErrNotExist):
					default:
						c.Fail("replication-error", "op=%d of %s failed: %v", op, ci.ID, err)
					}
				case 2:
					if err := s.repl.DownloadChunk(ctx, ci.ID, 0); err != nil && !errors.Is(err, context.DeadlineExceeded) && !transient(err) {
						c.Fail("replication-error", "download of %s failed: %v", ci.ID, err)
					}
				case 3:
					// somebody else holds the handle for a while
					h, err := s.prov.GetOpenedChunk(ctx, ci.ID, false)
					if err == nil {
						time.Sleep(time.Duration(rng.Intn(400)) * time.Microsecond)
						cr, err := h.Value().OpenChunkReader(rng.Intn(2) == 0)
						if err != nil {
							c.Fail("held-unusable", "the held file %s cannot be read: %v", ci.ID, err)
						} else {
							for cr.HasNext() {
								r, _ := cr.Next()
								if _, _, _, _, ok := payloadOK(r.UnsafePayload); !ok {
									c.Fail("torn-payload", "the record %s payload is damaged: %s", r.ID, short(r.UnsafePayload))
									break
								}
							}
							cr.Close()
						}
						s.prov.ReleaseChunk(&h)
					} else if !errors.Is(err, context.DeadlineExceeded) && !transient(err) {
						c.Fail("open-error", "the file %s cannot be opened: %v", ci.ID, err)
					}
				}
				cancel()
				time.Sleep(time.Duration(rng.Intn(1000)) * time.Microsecond)
			}
		})
	}
	time.Sleep(time.Duration(80+c.Rng.Intn(120)) * time.Millisecond)
	lg.stop.Store(true)
	if !c.Within(60*time.Second, "stuck", "the load and the replication operations", lg.wg.Wait) {
		return
	}
	lg.checkFinal("after the contention")
	// nobody works with the files, so each of them can be opened, and replicated when it is closed
	c.Within(60*time.Second, "stuck", "using of the idle files", func() {
		for _, l := range lg.lids {
			cis, err := s.meta.GetChunks(fw.Ctx(), l)
			fw.Must(err)
			for _, ci := range cis {
				h, err := s.prov.GetOpenedChunk(fw.Ctx(), ci.ID, false)
				if err != nil {
					c.Fail("idle-open", "the file %s which nobody works with cannot be opened: %v", ci.ID, err)
					continue
				}
				s.prov.ReleaseChunk(&h)
				if err := s.repl.UploadChunk(fw.Ctx(), ci.ID); err != nil {
					c.Fail("idle-upload", "the file %s which nobody works with cannot be uploaded: %v", ci.ID, err)
				}
			}
		}
	})
	if c.Failed() {
		return
	}
	c.Distinct(strings.Join(order, ""))
	c.Sample("%s workers=%d remote-calls=%d", sc, workers, len(order))
}

// r03Blocked: while a file is being uploaded, downloaded or moved away (the remote storage doesn't respond), the others
// cannot change it, and when they give up, they leave nothing behind
func r03Blocked(c *fw.Case) {
	cc := chunkfs.Config{NewSize: 2 * blk, MaxChunkSize: 16 * blk, MaxGrowIncreaseSize: blk}
	mem := newMemStorage()
	fs := newFaultStorage(mem, 1)
	sc := stackCfg{Dir: c.Dir(), MaxOpened: 1 + c.Rng.Intn(3), Chunk: cc, Log: logfs.Config{MaxRecordsLimit: 1000, MaxBunchSize: 1 << 23, MaxLocks: 10}, Cached: true, Remote: fs}
	s := openStack(sc)
	defer func() { s.close() }()
	lid := s.newLog(nil)
	var model []rec
	seq := 0
	app := func(ctx context.Context) (int, error) {
		seq++
		pls := [][]byte{taggedPayload(c.Rng, 0, seq, 0, 1, c.Rng.Intn(200))}
		ids, added, err := s.appendCtx(ctx, lid, pls)
		for i := 0; i < added; i++ {
			model = append(model, rec{ids[i], pls[i]})
		}
		return added, err
	}
	for i := 0; i < 1+c.Rng.Intn(5); i++ {
		_, err := app(fw.Ctx())
		fw.Must(err)
	}
	cis, err := s.meta.GetChunks(fw.Ctx(), lid)
	fw.Must(err)
	if len(cis) != 1 {
		panic("one file is expected")
	}
	cid := cis[0].ID
	fn := s.prov.GetFileNameByID(cid)
	hist := ""
	for round := 0; round < 3; round++ {
		mode := pick(c, "upload", "upload", "move", "download", "download-over")
		_, serr := os.Stat(fn)
		if mode != "upload" || serr != nil || c.Rng.Intn(3) == 0 {
			// the file is closed
			s.close()
			s = openStack(sc)
		}
		switch {
		case mode == "download" && serr == nil:
			fw.Must(s.repl.DeleteChunk(fw.Ctx(), cid, chunkfs.RFRemoteSync))
		case mode == "download-over":
			fw.Must(s.repl.DownloadChunk(fw.Ctx(), cid, 0))
			fw.Must(s.repl.UploadChunk(fw.Ctx(), cid))
		case mode != "download" && serr != nil:
			fw.Must(s.repl.DownloadChunk(fw.Ctx(), cid, 0))
		}
		was, _ := os.ReadFile(fn)
		entered, gate := make(chan struct{}), make(chan struct{})
		var once sync.Once
		hook := func() {
			once.Do(func() {
				close(entered)
				<-gate
			})
		}
		fs.onPut, fs.onGet = hook, hook
		done := make(chan error, 1)
		go func() {
			switch mode {
			case "upload":
				done <- s.repl.UploadChunk(fw.Ctx(), cid)
			case "move":
				done <- s.repl.DeleteChunk(fw.Ctx(), cid, chunkfs.RFRemoteSync)
			case "download":
				done <- s.repl.DownloadChunk(fw.Ctx(), cid, 0)
			case "download-over":
				done <- s.repl.DownloadChunk(fw.Ctx(), cid, chunkfs.RFRemoteSync)
			}
		}()
		<-entered
		hist += mode + "["
		for k := 0; k < 1+c.Rng.Intn(6); k++ {
			ctx, cancel := context.WithTimeout(context.Background(), time.Duration(c.Rng.Intn(1500))*time.Microsecond)
			what := pick(c, "append", "append", "open", "read", "upload", "download", "delete")
			var err error
			n := 0
			if !c.Within(20*time.Second, "stuck-request", what+" of a file in the middle of its "+mode+" with the time limit", func() {
				switch what {
				case "append":
					n, err = app(ctx)
				case "open":
					h, oerr := s.prov.GetOpenedChunk(ctx, cid, false)
					if oerr == nil {
						s.prov.ReleaseChunk(&h)
					}
				case "read":
					r, _, rerr := s.log.QueryRecords(ctx, storage.QueryRecordsRequest{LogID: lid, Limit: 1000})
					c.Count("blocked-reads", 1)
					if rerr == nil {
						compareAll(c, "wrong-content", lid, r, model, false)
					}
				case "upload":
					err = s.repl.UploadChunk(ctx, cid)
				case "download":
					err = s.repl.DownloadChunk(ctx, cid, chunkfs.RFRemoteSync)
				case "delete":
					err = s.repl.DeleteChunk(ctx, cid, 0)
				}
			}) {
				close(gate)
				return
			}
			cancel()
			c.Count("blocked-requests", 1)
			hist += what + " "
			if err == nil && what != "open" && what != "read" || n != 0 {
				c.Fail("not-exclusive", "%s of the file succeeded (%d) in the middle of its %s: %s", what, n, mode, hist)
			}
			if now, _ := os.ReadFile(fn); string(now) != string(was) {
				c.Fail("not-exclusive", "%s has changed the file in the middle of its %s: %s", what, mode, hist)
			}
		}
		hist += "] "
		close(gate)
		if err := <-done; err != nil {
			c.Fail("blocked-error", "the %s failed: %v; %s", mode, err, hist)
		}
		fs.onPut, fs.onGet = nil, nil
		if c.Failed() {
			return
		}
		// now everybody is served
		ok := c.Within(20*time.Second, "stuck-after", "using the file after its "+mode+", when the others gave up", func() {
			rs, err := s.readAll(c, lid, "", false, 1000)
			if err != nil {
				c.Fail("unusable-after", "the log cannot be read after the %s of its file: %v; %s", mode, err, hist)
				return
			}
			compareAll(c, "wrong-content", lid, rs, model, false)
			if n, err := app(fw.Ctx()); err != nil || n != 1 {
				c.Fail("unusable-after", "the log cannot be appended after the %s of its file: %d, %v; %s", mode, n, err, hist)
			}
			if err := s.repl.UploadChunk(fw.Ctx(), cid); err != nil {
				c.Fail("unusable-after", "the file cannot be uploaded after its %s: %v; %s", mode, err, hist)
			}
		})
		c.Eval(1)
		if !ok || c.Failed() {
			return
		}
	}
	c.Distinct(hist)
	c.Sample("%s", hist)
}

// provOnly is the provider with some ready files
type provOnly struct {
	prov *chunkfs.Provider
	ca   *chunkfs.ChunkAccessor
	repl *chunkfs.Replicator
	fs   *faultStorage
	mem  *memStorage
	dir  string
	ids  []string
	recs map[string]int
}

func newProvOnly(c *fw.Case, maxOpened, n int, remote bool) *provOnly {
	p := &provOnly{dir: filepath.Join(c.Dir(), "data"), recs: map[string]int{}}
	p.mem = newMemStorage()
	p.fs = newFaultStorage(p.mem, c.Rng.Int63())
	p.prov = chunkfs.NewProvider(p.dir, maxOpened, defChunk())
	p.ca = chunkfs.NewChunkAccessor()
	p.repl = chunkfs.NewReplicator(p.prov.GetFileNameByID)
	p.repl.CA, p.repl.Storage, p.prov.CA, p.prov.Replicator = p.ca, p.fs, p.ca, p.repl
	for i := 0; i < n; i++ {
		id := ulidutils.NewID()
		fn := p.prov.GetFileNameByID(id)
		fw.Must(files.EnsureFileExists(fn))
		ch := chunkfs.NewChunk(fn, id, defChunk())
		fw.Must(ch.Open(false))
		k := 1 + c.Rng.Intn(5)
		for j := 0; j < k; j++ {
			_, err := ch.AppendRecords(toRecs([][]byte{taggedPayload(c.Rng, i, j, 0, 1, c.Rng.Intn(500))}))
			fw.Must(err)
		}
		fw.Must(ch.Close())
		p.ids = append(p.ids, id)
		p.recs[id] = k
		if remote {
			fw.Must(p.repl.DeleteChunk(fw.Ctx(), id, chunkfs.RFRemoteSync))
		}
	}
	return p
}

// mapped returns the mapped files of the folder
func (p *provOnly) mapped() map[string]bool {
	b, err := os.ReadFile("/proc/self/maps")
	fw.Must(err)
	res := map[string]bool{}
	for _, ln := range strings.Split(string(b), "\n") {
		if i := strings.Index(ln, p.dir); i > 0 {
			res[filepath.Base(strings.TrimSuffix(ln[i:], " (deleted)"))] = true
		}
	}
	return res
}

// fds returns how many files of the folder are opened
func (p *provOnly) fds() []string {
	es, err := os.ReadDir("/proc/self/fd")
	fw.Must(err)
	var n []string
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, p.dir) {
			n = append(n, filepath.Base(l))
		}
	}
	return n
}

func (p *provOnly) use(c *fw.Case, h lru.Releasable[*chunkfs.Chunk], id string) {
	cr, err := h.Value().OpenChunkReader(false)
	if err != nil {
		c.Fail("held-unusable", "the held file %s cannot be read: %v", id, err)
		return
	}
	defer cr.Close()
	n := 0
	for cr.HasNext() {
		r, _ := cr.Next()
		if _, _, _, _, ok := payloadOK(r.UnsafePayload); !ok {
			c.Fail("torn-payload", "the record %s of the held file is damaged: %s", r.ID, short(r.UnsafePayload))
			return
		}
		n++
	}
	if n != p.recs[id] {
		c.Fail("wrong-file", "the held file %s has %d records, want %d", id, n, p.recs[id])
	}
	c.Eval(1)
}

func r04Run(c *fw.Case) {
	if c.Rng.Intn(3) == 0 {
		defer fw.SlowLog(time.Duration(1+c.Rng.Intn(2000)) * time.Microsecond)()
	}
	maxO := 1 + c.Rng.Intn(4)
	n := maxO + 1 + c.Rng.Intn(5)
	p := newProvOnly(c, maxO, n, c.Rng.Intn(2) == 0)
	p.fs.getP = pick(c, 0, 30)
	p.fs.delay = 300 * time.Microsecond
	p.fs.set(true)
	held := map[string]int{}
	var hlock sync.Mutex
	var wg sync.WaitGroup
	var order []byte
	var olock sync.Mutex
	for g := 0; g < 2+c.Rng.Intn(9); g++ {
		rng := rand.New(rand.NewSource(c.Rng.Int63()))
		c.Go(&wg, "user", func() {
			for k := 0; k < 25; k++ {
				i := rng.Intn(n)
				id := p.ids[i]
				ctx, cancel := context.Background(), func() {}
				if rng.Intn(3) == 0 {
					ctx, cancel = context.WithTimeout(ctx, time.Duration(rng.Intn(1500))*time.Microsecond)
				}
				t0 := time.Now()
				h, err := p.prov.GetOpenedChunk(ctx, id, false)
				if time.Since(t0) > 300*time.Microsecond {
					c.Count("waits", 1)
				}
				if err != nil {
					if errors.Is(err, context.DeadlineExceeded) {
						c.Count("timeouts", 1)
					} else if p.fs.getP > 0 && (transient(err) || errors.Is(err, context.DeadlineExceeded)) {
						c.Count("open-failures", 1)
					} else {
						c.Fail("open-error", "the file %s cannot be opened: %v", id, err)
					}
					cancel()
					continue
				}
				hlock.Lock()
				if held[id]++; len(held) > maxO {
					c.Fail("too-many-held", "%d different files are held, but at most %d may be opened", len(held), maxO)
				}
				hlock.Unlock()
				olock.Lock()
				order = append(order, byte('a'+i))
				olock.Unlock()
				p.use(c, h, id)
				time.Sleep(time.Duration(rng.Intn(300)) * time.Microsecond)
				p.use(c, h, id)
				hlock.Lock()
				if held[id]--; held[id] == 0 {
					delete(held, id)
				}
				hlock.Unlock()
				p.prov.ReleaseChunk(&h)
				c.Count("acquired", 1)
				cancel()
			}
		})
	}
	stop := make(chan struct{})
	var mwg sync.WaitGroup
	c.Go(&mwg, "monitor", func() {
		for {
			if m := p.mapped(); len(m) > maxO {
				c.Fail("too-many-mapped", "%d files are mapped, but at most %d may be opened: %v", len(m), maxO, m)
			}
			c.Count("maps-checks", 1)
			select {
			case <-stop:
				return
			case <-time.After(500 * time.Microsecond):
			}
		}
	})
	c.Within(60*time.Second, "stuck", "taking and releasing the files", wg.Wait)
	close(stop)
	mwg.Wait()
	if c.Failed() {
		return
	}
	p.prov.Shutdown()
	m, fds := p.mapped(), p.fds()
	if len(m) != 0 || len(fds) != 0 {
		c.Fail("not-closed", "%v are mapped and %v are opened after the shutdown", m, fds)
	}
	c.Distinct(string(order))
	c.Sample("max=%d files=%d order=%s", maxO, n, order)
}

// r04Failing: a file which cannot be opened must not block the others
func r04Failing(c *fw.Case) {
	p := newProvOnly(c, 1, 2, true)
	p.fs.getP = 100
	p.fs.delay = 4 * time.Millisecond
	damaged := c.Rng.Intn(2) == 0
	if damaged {
		// the local files are damaged, so they are to be downloaded again
		for _, id := range p.ids {
			fw.Must(p.repl.DownloadChunk(fw.Ctx(), id, 0))
			fn := p.prov.GetFileNameByID(id)
			b, err := os.ReadFile(fn)
			fw.Must(err)
			copy(b[8:12], []byte{0x00, 0x00, byte(c.Rng.Intn(256)), 0xff})
			fw.Must(os.WriteFile(fn, b, 0o644))
		}
		c.Count("damaged-files", 1)
	}
	p.fs.set(true)
	var wg sync.WaitGroup
	var ok atomic.Int64
	for g := 0; g < 2+c.Rng.Intn(4); g++ {
		id := p.ids[g%2]
		d := time.Duration(c.Rng.Intn(1500)) * time.Microsecond
		c.Go(&wg, "user", func() {
			time.Sleep(d)
			h, err := p.prov.GetOpenedChunk(fw.Ctx(), id, false)
			if err == nil {
				// the damaged bytes could be out of the compressed content
				p.use(c, h, id)
				p.prov.ReleaseChunk(&h)
				ok.Add(1)
				return
			}
			c.Count("open-failures", 1)
		})
	}
	if !c.Within(20*time.Second, "stuck-after-failure", "opening of the files which cannot be opened", wg.Wait) {
		return
	}
	c.Eval(1)
	p.fs.set(false)
	if ok.Load() == 0 && c.Rng.Intn(2) == 0 {
		// nobody holds the files which could not be opened, so they may be replicated
		c.Within(20*time.Second, "stuck-after-failure", "replication after the failures", func() {
			for _, id := range p.ids {
				var err error
				if damaged || c.Rng.Intn(2) == 0 {
					err = p.repl.DownloadChunk(fw.Ctx(), id, 0)
				}
				if err == nil {
					err = p.repl.DeleteChunk(fw.Ctx(), id, 0) // the remote copy is still there
				}
				c.Count("free-after-failure", 1)
				if err != nil && !errors.Is(err, serrors.ErrNotExist) {
					c.Fail("held-after-failure", "the file which could not be opened is still held by somebody: %v", err)
				}
			}
		})
	}
	c.Within(20*time.Second, "stuck-after-failure", "opening after the failures", func() {
		for _, id := range p.ids {
			h, err := p.prov.GetOpenedChunk(fw.Ctx(), id, false)
			if err != nil {
				c.Fail("open-after-failure", "the file cannot be opened after the faults are cleared: %v", err)
				return
			}
			p.use(c, h, id)
			p.prov.ReleaseChunk(&h)
		}
	})
	c.Within(20*time.Second, "stuck-after-failure", "shutdown", p.prov.Shutdown)
	c.Distinct(c.Idx % 64)
}

// r04Close: the storage is closed in the middle of the work
func r04Close(c *fw.Case) {
	maxO := 1 + c.Rng.Intn(3)
	n := maxO + c.Rng.Intn(3)
	p := newProvOnly(c, maxO, n, true)
	p.fs.getP = pick(c, 0, 50)
	p.fs.delay = 2 * time.Millisecond
	p.fs.set(true)
	var wg sync.WaitGroup
	release := make(chan struct{})
	var heldOver atomic.Int64
	var closed atomic.Bool
	for g := 0; g < 2+c.Rng.Intn(5); g++ {
		rng := rand.New(rand.NewSource(c.Rng.Int63()))
		c.Go(&wg, "user", func() {
			time.Sleep(time.Duration(rng.Intn(2000)) * time.Microsecond)
			for {
				id := p.ids[rng.Intn(n)]
				was := closed.Load()
				h, err := p.prov.GetOpenedChunk(fw.Ctx(), id, false)
				if err == nil && was {
					c.Fail("opened-after-close", "a file is opened after the storage was closed")
				}
				if err != nil {
					if errors.Is(err, serrors.ErrClosed) {
						c.Count("closed-refused", 1)
						return
					}
					if !transient(err) {
						c.Fail("open-error", "the file %s cannot be opened: %v", id, err)
						return
					}
					if was {
						c.Fail("opened-after-close", "the closed storage answers with %v", err)
						return
					}
					continue
				}
				p.use(c, h, id)
				if rng.Intn(2) == 0 {
					// keep it till the storage is closed
					<-release
					p.use(c, h, id)
					heldOver.Add(1)
				}
				p.prov.ReleaseChunk(&h)
			}
		})
	}
	time.Sleep(time.Duration(c.Rng.Intn(5000)) * time.Microsecond)
	c.Within(20*time.Second, "stuck-close", "closing the storage", p.prov.Shutdown)
	closed.Store(true)
	close(release)
	if !c.Within(20*time.Second, "stuck-after-close", "the users of the closed storage", wg.Wait) {
		return
	}
	c.Eval(1)
	c.Count("held-over-close", int(heldOver.Load()))
	// an opening which was in progress ends on its own
	if !eventually(5*time.Second, func() bool { return len(p.mapped()) == 0 && len(p.fds()) == 0 }) {
		c.Fail("not-closed", "%v are mapped and %v opened after the storage was closed and everything is released", p.mapped(), p.fds())
	}
	c.Distinct(heldOver.Load(), maxO, n, c.Idx%16)
}

// r04Refused: an append which is refused must not leave the files behind
func r04Refused(c *fw.Case) {
	sc := stackCfg{Dir: c.Dir(), MaxOpened: 1 + c.Rng.Intn(3), Chunk: defChunk(), Log: genLogCfg(c), InMemMeta: true}
	s := openStack(sc)
	defer s.close()
	lid := s.newLog(nil)
	known := func() map[string]bool {
		m := map[string]bool{}
		cis, err := s.meta.GetChunks(fw.Ctx(), lid)
		fw.Must(err)
		for _, ci := range cis {
			m[ci.ID] = true
		}
		return m
	}
	what := ""
	for i := 0; i < 5+c.Rng.Intn(20); i++ {
		switch c.Rng.Intn(2) {
		case 0:
			_, added, err := s.append(lid, [][]byte{make([]byte, 4*blk)})
			if err == nil || added != 0 {
				c.Fail("not-refused", "an oversized record is not refused: %v", err)
			}
			c.Count("refused", 1)
			what += "o"
		case 1:
			_, _, err := s.append(lid, [][]byte{make([]byte, c.Rng.Intn(2000))})
			if err != nil {
				c.Fail("append-error", "append failed: %v", err)
			}
			what += "a"
		}
	}
	fs := localFiles(s.data)
	m := known()
	extra := 0
	for _, f := range fs {
		if !m[filepath.Base(f)] {
			extra++
		}
	}
	c.Eval(1)
	c.Distinct(what)
	// the opened ones could not be deleted yet
	if extra > sc.MaxOpened {
		c.Fail("refused-oversized-leak", "%d files are on the disk, but only %d belong to the log: the refused appends (%s) leave the files behind; max opened=%d", len(fs), len(m), what, sc.MaxOpened)
	}
}
