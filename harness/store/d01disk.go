package store

import (
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"sync"
	"syscall"

	"github.com/solarisdb/solaris/pkg/storage/chunkfs"
	"verif/harness/fw"
)

var ignoreXFSZ sync.Once

// fileLimit lets the files of the process grow up to n bytes only, as if there was no place on the disk. n < 0 takes the limit away
func fileLimit(n int64) {
	ignoreXFSZ.Do(func() { signal.Ignore(syscall.SIGXFSZ) })
	var l syscall.Rlimit
	fw.Must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l))
	l.Cur = l.Max
	if n >= 0 {
		l.Cur = min(uint64(n), l.Max)
	}
	fw.Must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l))
}

func d01Disk(c *fw.Case) { fullDisk(c, false) }
func r01Disk(c *fw.Case) { fullDisk(c, true) }

// fullDisk runs out of the place on the disk from time to time: nothing acknowledged is lost, everything is read while there is no
// place and the appends work as soon as there is some again
func fullDisk(c *fw.Case, remote bool) {
	cc := genChunkCfg(c)
	sc := stackCfg{Dir: c.Dir(), MaxOpened: 1 + c.Rng.Intn(4), Chunk: cc, Log: genLogCfg(c), Cached: c.Rng.Intn(2) == 0, InMemMeta: true}
	sc.Log.MaxLocks = max(sc.Log.MaxLocks, 2)
	s := openStack(sc)
	defer s.close()
	defer fileLimit(-1)
	mx := maxRecSize(cc)
	lids := []string{s.newLog(nil), s.newLog(nil)}
	model := map[string][]rec{}
	full := false
	for op := 0; op < 12+c.Rng.Intn(20) && !c.Failed(); op++ {
		lid := lids[c.Rng.Intn(2)]
		full = c.Rng.Intn(2) == 0
		lim := int64(-1)
		if full {
			lim = int64(c.Rng.Intn(int(cc.MaxChunkSize/blk)+2)) * blk
			if c.Rng.Intn(3) == 0 {
				lim = max(0, lim-int64(c.Rng.Intn(blk)))
			}
		}
		fileLimit(lim)
		kind := 0
		if remote {
			kind = c.Rng.Intn(6)
		}
		ci, err := s.meta.GetLastChunk(fw.Ctx(), lid)
		if err != nil {
			ci.ID = ""
		}
		if kind > 2 && ci.ID == "" {
			kind = 0
		}
		switch kind {
		case 3, 4, 5:
			what := ""
			switch kind {
			case 3:
				what, err = "upload", s.repl.UploadChunk(fw.Ctx(), ci.ID)
			case 4:
				// there and back again
				what = "download"
				if err = s.repl.DeleteChunk(fw.Ctx(), ci.ID, chunkfs.RFRemoteSync); err == nil {
					err = s.repl.DownloadChunk(fw.Ctx(), ci.ID, pick(c, 0, chunkfs.RFRemoteSync))
				}
			case 5:
				what, err = "move", s.repl.DeleteChunk(fw.Ctx(), ci.ID, chunkfs.RFRemoteSync)
			}
			c.Eval(1)
			if err != nil && full {
				c.Count("transfers-failed", 1)
			}
			c.Distinct("disk", what, full, err == nil)
		default:
			pls := make([][]byte, pick(c, 1, 1, 2, 3, 8, 20))
			for i := range pls {
				pls[i] = genPayload(c, mx, fmt.Sprintf("#%d.%d#", op, i))
			}
			ids, added, err := s.append(lid, pls)
			c.Eval(1)
			switch {
			case len(ids) != added || added > len(pls) || err != nil && added != 0:
				c.Fatal("wrong-added", "append of %d records with the files limit %d: added=%d ids=%d err=%v; cfg=%s", len(pls), lim, added, len(ids), err, sc)
			case !full && added != len(pls):
				c.Fatal("append-after-full", "append of %d records, after there was no place on the disk: added=%d err=%v; cfg=%s", len(pls), added, err, sc)
			case err == nil && added == 0:
				c.Fatal("silent-refusal", "append of %d records with the files limit %d added nothing without an error; cfg=%s", len(pls), lim, sc)
			}
			if full && added < len(pls) {
				c.Count("no-place", 1)
			}
			for i := range ids {
				model[lid] = append(model[lid], rec{ids[i], pls[i]})
			}
			c.Distinct("disk", full, added, len(pls), err == nil)
		}
		// whatever is on the disk is read without a new place there; the moved files come back when there is some
		if remote || c.Rng.Intn(2) == 0 {
			fileLimit(-1)
		} else if full {
			c.Count("read-full", 1)
		}
		d01Read(c, s, lids, model, sc)
	}
	fileLimit(-1)
	d01Read(c, s, lids, model, sc)
	if tmp, _ := filepath.Glob(filepath.Join(s.data, "*", "*.*")); len(tmp) > 0 {
		for _, fn := range tmp {
			if filepath.Ext(fn) != ".info" {
				c.Fatal("leftover", "the file %s is left after the transfers with no place on the disk", fn)
			}
		}
	}
	if ents, _ := filepath.Glob(filepath.Join(s.data, "*", "*")); !remote {
		for _, fn := range ents {
			if fi, err := os.Stat(fn); err == nil && fi.Size() == 0 {
				c.Fatal("empty-file", "an empty file %s is left by the refused appends", fn)
			}
		}
	}
	c.Sample("%s: %d records", sc, len(model[lids[0]])+len(model[lids[1]]))
}
