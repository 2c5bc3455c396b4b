package store

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/solarisdb/solaris/golibs/files"
	"github.com/solarisdb/solaris/pkg/storage/chunkfs"
	"github.com/solarisdb/solaris/pkg/storage/logfs"
	"verif/harness/fw"
)

func init() {
	fw.Register(&fw.Prop{
		ID: "R01",
		Rule: "a case is a storage configuration and a history of 10-40 appends, reads, uploads, downloads and local deletions against a remote storage which refuses, breaks, truncates, " +
			"damages or loses the response of 0-60% of the calls; after it the faults are cleared and everything acknowledged must be read back, from the local files and, " +
			"after moving all of them, from the remote ones; non-trivial: a file was read back from the remote storage; distinct by the history",
		MinEvents: []string{"uploads", "moved", "remote-reads", "put-refused", "put-partly", "put-lost-response", "get-refused", "get-broken", "cancelled", "put-cancelled", "remote-deletes", "local-deletes", "snapshots", "snapshots-before", "get-truncated", "get-damaged", "local-damaged", "no-place", "transfers-failed"},
		Scens: []fw.Scenario{
			{Name: "faults", Quick: 400, Thorough: 16000, Run: r01Run},
			{Name: "snapshots", Quick: 48, Thorough: 1200, Run: r01Snap},
			{Name: "full-disk", Quick: 160, Thorough: 4000, Run: r01Disk},
		},
	})
}

func localFiles(dir string) []string {
	var res []string
	_ = filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			res = append(res, p)
		}
		return nil
	})
	return res
}

func r01Run(c *fw.Case) {
	cc := genChunkCfg(c)
	cc.MaxChunkSize = min(cc.MaxChunkSize, 4*blk)
	cc.NewSize = min(cc.NewSize, cc.MaxChunkSize)
	mem := newMemStorage()
	fs := newFaultStorage(mem, c.Rng.Int63())
	fs.putP, fs.getP = pick(c, 0, 20, 60), pick(c, 0, 20, 60)
	sc := stackCfg{Dir: c.Dir(), MaxOpened: 1 + c.Rng.Intn(3), Chunk: cc, Log: logfs.Config{MaxRecordsLimit: 1000, MaxBunchSize: 1 << 23, MaxLocks: 10}, Cached: c.Rng.Intn(2) == 0, Remote: fs, InMemMeta: true}
	s := openStack(sc)
	defer func() { s.close() }()
	lids := []string{s.newLog(nil), s.newLog(nil)}
	model := map[string][]rec{}
	fs.set(true)
	seq := 0
	hist := fmt.Sprintf("%+v put=%d%% get=%d%%: ", cc, fs.putP, fs.getP)
	chunks := func() []string {
		var res []string
		for _, l := range lids {
			cis, err := s.meta.GetChunks(fw.Ctx(), l)
			fw.Must(err)
			for _, ci := range cis {
				res = append(res, ci.ID)
			}
		}
		return res
	}
	check := func(what string, lenient bool) {
		for _, l := range lids {
			desc := c.Rng.Intn(2) == 0
			g0 := mem.gets
			rs, err := s.readAll(c, l, "", desc, int64(pick(c, 3, 1000)))
			if mem.gets != g0 {
				c.Count("remote-reads", 1)
			}
			c.Eval(1)
			if err != nil {
				if lenient {
					c.Count("failed-reads", 1)
					continue
				}
				c.Fatal("unreadable", "%s: reading of the log %s with %d records failed, though the remote storage works: %v; history: %s; cfg=%s", what, l, len(model[l]), err, hist, sc)
			}
			compareAll(c, "wrong-content", l, rs, model[l], desc)
			if c.Failed() {
				c.Fail("wrong-content", "%s; history: %s", what, hist)
				c.Stop()
			}
		}
	}
	reopen := func() {
		// a restart also drops the opened files, so they may be replicated
		s.close()
		time.Sleep(2 * time.Millisecond)
		sc.InMemMeta = false
		s = openStack(sc)
	}
	sc.InMemMeta = false
	s.close()
	s = openStack(sc)
	lids = []string{s.newLog(nil), s.newLog(nil)}
	// some of the requests are cancelled in the middle
	someCtx := func() context.Context {
		if c.Rng.Intn(4) > 0 {
			return fw.Ctx()
		}
		c.Count("cancelled", 1)
		return fw.CancelAt(c.Rng.Intn(8))
	}
	for op := 0; op < 10+c.Rng.Intn(30); op++ {
		ids := chunks()
		var cid string
		if len(ids) > 0 {
			cid = ids[c.Rng.Intn(len(ids))]
		}
		k := c.Rng.Intn(9)
		switch {
		case cid == "" || k < 2:
			lid := lids[c.Rng.Intn(2)]
			var pls [][]byte
			for i := 0; i < 1+c.Rng.Intn(6); i++ {
				seq++
				pls = append(pls, genPayload(c, maxRecSize(cc), fmt.Sprintf("#%d#", seq)))
			}
			ids, added, err := s.append(lid, pls)
			if err != nil {
				// the last file could not be downloaded
				c.Count("failed-appends", 1)
			}
			for i := 0; i < added; i++ {
				model[lid] = append(model[lid], rec{ids[i], pls[i]})
			}
			hist += fmt.Sprintf("append(%v)=%d,%v ", sizes(pls), added, err)
		case k == 2:
			err := s.repl.UploadChunk(someCtx(), cid)
			c.Count("uploads", 1)
			hist += fmt.Sprintf("upload(%s)=%v ", cid[20:], err)
		case k == 3 || k == 4:
			fn := s.prov.GetFileNameByID(cid)
			before, _ := os.ReadFile(fn)
			err := s.repl.DeleteChunk(someCtx(), cid, chunkfs.RFRemoteSync)
			hist += fmt.Sprintf("move(%s)=%v ", cid[20:], err)
			after, rerr := os.ReadFile(fn)
			if err != nil {
				if before != nil && (rerr != nil || string(after) != string(before)) {
					c.Fatal("local-lost", "moving of %s to the remote storage failed with %v, but the local file is damaged: %v; history: %s", cid, err, rerr, hist)
				}
			} else {
				c.Count("moved", 1)
				if rerr == nil {
					c.Fatal("not-deleted", "moving of %s to the remote storage succeeded, but the local file is still here", cid)
				}
			}
		case k == 5:
			err := s.repl.DownloadChunk(someCtx(), cid, 0)
			hist += fmt.Sprintf("download(%s)=%v ", cid[20:], err)
		case k == 6:
			check("with faults", true)
		case k == 7:
			reopen()
			hist += "restart "
		case k == 8:
			// a damaged local file is replaced with its remote copy, if nothing was appended since
			if _, err := os.Stat(s.prov.GetFileNameByID(cid)); err != nil {
				continue
			}
			reopen()
			fs.set(false)
			err := s.repl.UploadChunk(fw.Ctx(), cid)
			fs.set(true)
			if err != nil {
				c.Fatal("upload-error", "upload of %s failed, though the remote storage works: %v; history: %s", cid, err, hist)
			}
			fn := s.prov.GetFileNameByID(cid)
			b, err := os.ReadFile(fn)
			fw.Must(err)
			clear(b[32:])
			if c.Rng.Intn(2) == 0 {
				copy(b[8:12], []byte{0x00, 0x00, byte(c.Rng.Intn(256)), 0xff})
			}
			fw.Must(os.WriteFile(fn, b, 0o644))
			c.Count("local-damaged", 1)
			hist += fmt.Sprintf("damage(%s) ", cid[20:])
			fs.set(false)
			check("after the local file "+cid+" was damaged, with its actual copy in the remote storage", false)
			fs.set(true)
		}
	}
	fs.set(false)
	check("after the faults", false)
	reopen()
	for _, cid := range chunks() {
		if err := s.repl.DeleteChunk(fw.Ctx(), cid, chunkfs.RFRemoteSync); err != nil {
			if errors.Is(err, os.ErrNotExist) {
				continue // it is not here already
			}
			c.Fatal("move-error", "moving of %s failed, though the remote storage works: %v", cid, err)
		}
		c.Count("moved", 1)
	}
	for _, f := range localFiles(s.data) {
		if nm := filepath.Base(f); len(nm) == 26 || strings.HasSuffix(nm, ".zip") || strings.HasSuffix(nm, ".tmp") {
			c.Fail("garbage", "the file %s is left after moving everything to the remote storage; history: %s", f, hist)
		}
	}
	check("from the remote storage", false)
	r01Delete(c, s, fs, mem, chunks())
	for k, n := range fs.hit {
		c.Count(k, n)
	}
	c.Distinct(hist)
	c.Sample("%s", hist)
}

// r01Delete: the deletion removes exactly what it is told to
func r01Delete(c *fw.Case, s *stack, fs *faultStorage, mem *memStorage, ids []string) {
	s.prov.Shutdown() // nothing is opened
	fs.delP = 40
	for _, cid := range ids {
		if c.Rng.Intn(2) == 0 {
			fw.Must(s.repl.DownloadChunk(fw.Ctx(), cid, 0))
		}
		fn := s.prov.GetFileNameByID(cid)
		key := "/" + cid[24:] + "/" + cid
		mem.lock.Lock()
		r0, was := mem.m[key]
		mem.lock.Unlock()
		l0, lerr0 := os.ReadFile(fn)
		flags := pick(c, 0, chunkfs.RFRemoteDelete, chunkfs.RFRemoteDelete, chunkfs.RFRemoteDelete|chunkfs.RFRemoteSync)
		fs.set(true)
		err := s.repl.DeleteChunk(fw.Ctx(), cid, flags)
		fs.set(false)
		mem.lock.Lock()
		r1, is := mem.m[key]
		mem.lock.Unlock()
		l1, lerr1 := os.ReadFile(fn)
		what := fmt.Sprintf("deletion of %s with flags=%d returned %v, locally %d bytes, %v -> %d bytes, %v; remotely %v -> %v", cid, flags, err, len(l0), lerr0, len(l1), lerr1, was, is)
		c.Eval(1)
		remoteKept := is && string(r0) == string(r1)
		switch flags {
		case 0:
			c.Count("local-deletes", 1)
			if err != nil || lerr1 == nil || was && !remoteKept {
				c.Fail("delete-local", "%s; only the local file must be removed", what)
			}
		case chunkfs.RFRemoteDelete:
			c.Count("remote-deletes", 1)
			if err == nil && (is || lerr1 == nil) {
				c.Fail("delete-remote", "%s; both must be removed", what)
			}
		default:
			if err == nil || was && !remoteKept || lerr0 == nil && (lerr1 != nil || string(l0) != string(l1)) {
				c.Fail("delete-refused", "%s; the contradicting flags must be refused with nothing removed", what)
			}
		}
	}
}

// r01Snap: what a crash would leave. While a file is being downloaded or moved it is looked at: at any moment it is complete
// or, if it was not there before, absent
func r01Snap(c *fw.Case) {
	cc := chunkfs.Config{NewSize: 4 * blk, MaxChunkSize: 8 << 20, MaxGrowIncreaseSize: 1 << 20}
	mem := newMemStorage()
	fs := newFaultStorage(mem, c.Rng.Int63())
	sc := stackCfg{Dir: c.Dir(), MaxOpened: 2, Chunk: cc, Log: logfs.Config{MaxRecordsLimit: 1000, MaxBunchSize: 1 << 23, MaxLocks: 10}, Remote: fs, InMemMeta: true}
	s := openStack(sc)
	defer func() { s.close() }()
	lid := s.newLog(nil)
	pl := make([]byte, 1<<18+c.Rng.Intn(1<<20))
	c.Rng.Read(pl)
	n := 1 + c.Rng.Intn(3)
	for i := 0; i < n; i++ {
		_, _, err := s.append(lid, [][]byte{pl})
		fw.Must(err)
	}
	cis, err := s.meta.GetChunks(fw.Ctx(), lid)
	fw.Must(err)
	cid := cis[len(cis)-1].ID
	s.prov.Shutdown()
	fn := s.prov.GetFileNameByID(cid)
	want, err := os.ReadFile(fn)
	fw.Must(err)
	fw.Must(s.repl.UploadChunk(fw.Ctx(), cid))
	fs.putP, fs.getP = pick(c, 0, 40), pick(c, 0, 40)
	fs.set(true)
	hist := ""
	for op := 0; op < 8; op++ {
		_, err := os.Stat(fn)
		was := err == nil
		flags := 0
		mem.lock.Lock()
		want, err = unzipOne(mem.m["/"+cid[24:]+"/"+cid])
		mem.lock.Unlock()
		fw.Must(err)
		move := was && c.Rng.Intn(2) == 0
		if was && !move {
			flags = chunkfs.RFRemoteSync
			// what is there is older, its tail is absent
			if c.Rng.Intn(2) == 0 {
				fw.Must(os.WriteFile(fn, want[:len(want)/2], 0o644))
			}
		}
		old, _ := os.ReadFile(fn)
		done := make(chan error, 1)
		go func() {
			if move {
				done <- s.repl.DeleteChunk(fw.Ctx(), cid, chunkfs.RFRemoteSync)
			} else {
				done <- s.repl.DownloadChunk(fw.Ctx(), cid, flags)
			}
		}()
		what := map[bool]string{false: "download", true: "move"}[move]
		snaps, over := 0, false
		for !over {
			select {
			case err = <-done:
				over = true
			default:
			}
			b, rerr := os.ReadFile(fn)
			snaps++
			c.Count("snapshots", 1)
			switch {
			case rerr != nil:
				if !errors.Is(rerr, os.ErrNotExist) {
					fw.Must(rerr)
				}
				if was && !move {
					c.Fatal("absent-file", "the file %s is absent for a moment, while it is being downloaded over the existing one", cid)
				}
				if !over {
					c.Count("snapshots-before", 1)
				}
			case string(b) != string(want) && !(was && string(b) == string(old)):
				c.Fatal("partial-file", "a crash in the middle of the %s (flags=%d, the file was there: %v) would leave the file %s with %d bytes of %d; history: %s", what, flags, was, cid, len(b), len(want), hist)
			}
			if move && rerr != nil {
				mem.lock.Lock()
				z := mem.m["/"+cid[24:]+"/"+cid]
				mem.lock.Unlock()
				if u, err := unzipOne(z); err != nil || string(u) != string(old) {
					c.Fatal("moved-lost", "the file %s is removed, but its remote copy is different: %v; history: %s", cid, err, hist)
				}
			}
		}
		c.Eval(1)
		hist += fmt.Sprintf("%s(flags=%d)=%v ", what, flags, err)
	}
	for k, n := range fs.hit {
		c.Count(k, n)
	}
	c.Distinct(hist, len(want))
	c.Sample("%s", hist)
}

var _ = rand.Int
var _ = files.BlockSize
