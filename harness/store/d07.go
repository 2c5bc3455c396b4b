package store

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/solarisdb/solaris/api/gen/solaris/v1"
	"github.com/solarisdb/solaris/pkg/storage"
	"github.com/solarisdb/solaris/pkg/storage/chunkfs"
	"github.com/solarisdb/solaris/pkg/storage/logfs"
	"verif/harness/fw"
)

func init() {
	fw.Register(&fw.Prop{
		ID: "D07",
		Rule: "crash: a child process appends, reads, uploads and deletes local files of 1-3 logs and is killed with SIGKILL at a random moment or (strace) right at " +
			"the N-th ftruncate/write/munmap/mmap/unlinkat/renameat/openat/fsync system call; the data is then opened again, possibly with another configuration, and " +
			"checked, 2-4 kills per case. restart: the storage is closed and reopened in between appends. non-trivial: something was acknowledged before the kill; " +
			"distinct by the crash point and the layout",
		MinEvents:   []string{"kills", "acked", "recovered", "restarts"},
		Assumptions: []string{"the operating system keeps running: the pages written before the kill survive it (no power failure)", "the clock does not go back and moves by a millisecond between two starts"},
		Scens: []fw.Scenario{
			{Name: "crash", Quick: 48, Thorough: 2400, Run: d07Crash},
			{Name: "crash-growth", Quick: 32, Thorough: 1600, Run: d07Growth},
			{Name: "restart", Quick: 64, Thorough: 3000, Run: d07Restart},
		},
	})
	fw.Subcommand("d07child", d07Child)
}

type (
	d07Cfg struct {
		Dir       string
		Seed      int64
		Cycle     int
		MaxOpened int
		Chunk     chunkfs.Config
		Log       logfs.Config
		Cached    bool
		Remote    bool
		Fill      int
		Lids      []string
		Batches   int
	}

	// d07Model is what was acknowledged
	d07Model struct {
		acked  map[string][]string // log -> IDs
		ident  map[string][3]int   // ID -> writer, batch, index
		issued map[string]bool     // "lid w seq" issued
	}
)

func (dc d07Cfg) stack() *stack {
	sc := stackCfg{Dir: dc.Dir, MaxOpened: dc.MaxOpened, Chunk: dc.Chunk, Log: dc.Log, Cached: dc.Cached}
	rd := filepath.Join(dc.Dir, "remote")
	fw.Must(os.MkdirAll(rd, 0o755))
	sc.Remote = &dirStorage{dir: rd}
	return openStack(sc)
}

// d07Child appends the records until it is killed
func d07Child(args []string) {
	var dc d07Cfg
	fw.Must(json.Unmarshal([]byte(args[0]), &dc))
	s := dc.stack()
	var olock sync.Mutex
	say := func(f string, a ...any) {
		olock.Lock()
		defer olock.Unlock()
		_, _ = os.Stdout.Write([]byte(fmt.Sprintf(f+"\n", a...)))
	}
	say("S")
	var wg sync.WaitGroup
	if dc.Remote {
		go func() {
			rng := rand.New(rand.NewSource(dc.Seed ^ 77))
			for {
				lid := dc.Lids[rng.Intn(len(dc.Lids))]
				cis, err := s.meta.GetChunks(context.Background(), lid)
				if err != nil || len(cis) == 0 {
					continue
				}
				cid := cis[rng.Intn(len(cis))].ID
				switch rng.Intn(3) {
				case 0:
					_ = s.repl.UploadChunk(context.Background(), cid)
				case 1:
					_ = s.repl.DeleteChunk(context.Background(), cid, chunkfs.RFRemoteSync)
				case 2:
					_, _, _ = s.query(lid, "", "", rng.Intn(2) == 0, 10)
				}
			}
		}()
	}
	for i, lid := range dc.Lids {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := i + 100*dc.Cycle
			rng := rand.New(rand.NewSource(dc.Seed*31 + int64(i)))
			for b := 0; b < dc.Batches; b++ {
				n := 1 + rng.Intn(6)
				recs := make([]*solaris.Record, n)
				for k := range recs {
					recs[k] = &solaris.Record{Payload: taggedPayload(rng, w, b, k, n, rng.Intn(dc.Fill+1))}
				}
				say("I %s %d %d", lid, w, b)
				r, err := s.log.AppendRecords(context.Background(), &solaris.AppendRecordsRequest{LogID: lid, Records: recs, ExpandIDs: true})
				if err != nil || int(r.Added) != n {
					// a concurrently deleted local file makes the append fail for awhile
					say("E %s %d %d %v", lid, w, b, err)
					if r == nil || r.Added == 0 {
						continue
					}
				}
				say("A %s %d %d %s", lid, w, b, strings.Join(r.RecordIDs, " "))
			}
		}()
	}
	wg.Wait()
	say("F")
	select {}
}

func (m *d07Model) line(ln string) {
	f := strings.Fields(ln)
	switch {
	case len(f) >= 4 && f[0] == "I":
		m.issued[f[1]+" "+f[2]+" "+f[3]] = true
	case len(f) >= 5 && f[0] == "A":
		w, _ := strconv.Atoi(f[2])
		b, _ := strconv.Atoi(f[3])
		for i, id := range f[4:] {
			if len(id) != 26 {
				panic(fmt.Errorf("harness environment problem: torn line %q", ln))
			}
			m.acked[f[1]] = append(m.acked[f[1]], id)
			m.ident[id] = [3]int{w, b, i}
		}
	}
}

// runChild starts the child and kills it; returns how many acks it made
func (m *d07Model) runChild(c *fw.Case, dc d07Cfg, sysc string, when int, killAfter int, killDelay time.Duration) (string, int) {
	js, err := json.Marshal(dc)
	fw.Must(err)
	acks := 0
	end := runKilled(c, []string{"d07child", string(js)}, sysc, when, func() bool { return acks >= killAfter }, killDelay, func(ln string) bool {
		m.line(ln)
		if ln[0] == 'A' {
			acks++
		}
		if ln[0] == 'E' {
			c.Count("refused-appends", 1)
		}
		return ln[0] == 'F'
	})
	// the clock must move for the IDs of the next process to be greater
	time.Sleep(2 * time.Millisecond)
	return end, acks
}

// runKilled starts the subcommand of the binary as a child process and kills it with SIGKILL: either right at the
// when-th call of the sysc (under strace), or killDelay after enough returns true. line gets what it prints and returns true
// when the child has nothing to do anymore. The result tells how it ended
func runKilled(c *fw.Case, sub []string, sysc string, when int, enough func() bool, killDelay time.Duration, line func(ln string) bool) string {
	exe, err := os.Executable()
	fw.Must(err)
	args := append([]string{exe, "-prop"}, sub...)
	if sysc != "" {
		args = append([]string{"strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=" + sysc, "-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", sysc, when)}, args...)
	}
	cmd := exec.Command(args[0], args[1:]...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Env = append(os.Environ(), "GOMAXPROCS=4")
	var stderr strings.Builder
	cmd.Stderr = &stderr
	out, err := cmd.StdoutPipe()
	fw.Must(err)
	fw.Must(cmd.Start())
	kill := func() { _ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	tm := time.AfterFunc(40*time.Second, kill)
	br := bufio.NewReader(out)
	end := "eof"
	killed := false
	for {
		ln, err := br.ReadString('\n')
		if err != nil {
			if err != io.EOF {
				fw.Must(err)
			}
			break
		}
		fin := line(strings.TrimSuffix(ln, "\n"))
		if (fin || enough()) && !killed {
			killed = true
			if fin {
				end = "finished"
			} else {
				end = "killed"
			}
			time.Sleep(killDelay)
			kill()
		}
	}
	tm.Stop()
	kill()
	_ = cmd.Wait()
	if sysc != "" && end == "eof" {
		end = sysc
		c.Count("syscall-kills", 1)
	}
	if se := stderr.String(); strings.Contains(se, "goroutine ") && (strings.Contains(se, "panic:") || strings.Contains(se, "fatal error:") || strings.Contains(se, "SIG")) {
		c.Fatal("child-"+fw.PanicSig(nil, []byte(se)), "the storage process crashed on its own: %s", se[:min(len(se), 3000)])
	}
	c.Count("kills", 1)
	return end
}

// verify opens the storage in-process and checks that what was acknowledged is there
func (m *d07Model) verify(c *fw.Case, dc d07Cfg, what string) {
	var s *stack
	if pv, st := fw.Try(func() { s = dc.stack() }); pv != nil {
		c.Fatal("open-failed", "%s: the storage cannot be opened: %v\n%s", what, pv, st)
	}
	defer s.close()
	for _, lid := range dc.Lids {
		desc := c.Rng.Intn(2) == 0
		rs, err := s.readAll(c, lid, "", desc, 10000)
		c.Eval(1)
		if err != nil {
			c.Fatal("read-error", "%s: reading of the log %s failed: %v; %d records had been acknowledged; cfg=%+v", what, lid, err, len(m.acked[lid]), dc)
		}
		if desc {
			for i, j := 0, len(rs)-1; i < j; i, j = i+1, j-1 {
				rs[i], rs[j] = rs[j], rs[i]
			}
		}
		k := 0
		ack := m.acked[lid]
		for i, r := range rs {
			if i > 0 && rs[i-1].ID >= r.ID {
				c.Fatal("order", "%s: log %s: ID %s goes after %s", what, lid, r.ID, rs[i-1].ID)
			}
			w, b, idx, _, ok := payloadOK(r.Payload)
			if !ok {
				c.Fatal("damaged", "%s: log %s: record %s (#%d of %d) has a payload nobody appended: %s; cfg=%+v", what, lid, r.ID, i, len(rs), short(r.Payload), dc)
			}
			if id, ok := m.ident[r.ID]; ok {
				if id != [3]int{w, b, idx} {
					c.Fatal("wrong-payload", "%s: log %s: record %s holds the payload of another record: writer=%d batch=%d #%d, want %v", what, lid, r.ID, w, b, idx, id)
				}
			} else if !m.issued[fmt.Sprintf("%s %d %d", lid, w, b)] {
				c.Fatal("invented", "%s: log %s: record %s was never appended to the log", what, lid, r.ID)
			} else {
				c.Count("unacked-visible", 1)
			}
			if k < len(ack) && ack[k] == r.ID {
				k++
			}
		}
		if k != len(ack) {
			c.Fatal("lost", "%s: log %s: the acknowledged record %s (#%d of %d) is lost: %d records are returned; cfg=%+v", what, lid, ack[k], k, len(ack), len(rs), dc)
		}
		c.Count("recovered", len(ack))
		if t, n, err := s.log.CountRecords(fw.Ctx(), storage.QueryRecordsRequest{LogID: lid}); err != nil || int(t) < len(ack) || t != n {
			c.Fatal("count", "%s: log %s: count total=%d count=%d err=%v, but %d records were acknowledged", what, lid, t, n, err, len(ack))
		}
	}
	// the storage still works
	for i, lid := range dc.Lids {
		w, b := 100*dc.Cycle+50+i, 0
		pls := [][]byte{taggedPayload(c.Rng, w, b, 0, 2, c.Rng.Intn(100)), taggedPayload(c.Rng, w, b, 1, 2, c.Rng.Intn(100))}
		ids, added, err := s.append(lid, pls)
		if err != nil || added != 2 {
			c.Fatal("append-after", "%s: append to %s failed: added=%d err=%v; cfg=%+v", what, lid, added, err, dc)
		}
		if a := m.acked[lid]; len(a) > 0 && a[len(a)-1] >= ids[0] {
			c.Fatal("id-order", "%s: the new ID %s is not greater than the acknowledged %s", what, ids[0], a[len(a)-1])
		}
		m.line(fmt.Sprintf("A %s %d %d %s", lid, w, b, strings.Join(ids, " ")))
		c.Count("acked", 2)
	}
}

func newD07(c *fw.Case) (*d07Model, d07Cfg) {
	m := &d07Model{acked: map[string][]string{}, ident: map[string][3]int{}, issued: map[string]bool{}}
	dc := d07Cfg{Dir: c.Dir(), MaxOpened: 1 + c.Rng.Intn(4), Log: logfs.Config{MaxRecordsLimit: 10000, MaxBunchSize: 1 << 23, MaxLocks: 10},
		Cached: c.Rng.Intn(2) == 0, Fill: pick(c, 0, 30, 300, 1000), Batches: 150}
	dc.Chunk = genChunkCfg(c)
	s := dc.stack()
	for i := 0; i < 1+c.Rng.Intn(3); i++ {
		dc.Lids = append(dc.Lids, s.newLog(map[string]string{"n": fmt.Sprint(i)}))
	}
	s.close()
	return m, dc
}

// another configuration of the same storage
func (dc *d07Cfg) mutate(c *fw.Case) {
	dc.MaxOpened = 1 + c.Rng.Intn(4)
	dc.Cached = c.Rng.Intn(2) == 0
	if c.Rng.Intn(2) == 0 {
		n := genChunkCfg(c)
		dc.Chunk = n
	}
}

func d07Crash(c *fw.Case) {
	m, dc := newD07(c)
	dc.Remote = c.Rng.Intn(2) == 0
	shape := fmt.Sprint(dc.Chunk, dc.Fill)
	for i := 0; i < 2+c.Rng.Intn(3) && !c.Failed(); i++ {
		dc.Cycle = i + 1
		dc.Seed = c.Rng.Int63()
		sysc, when := "", 0
		if c.Rng.Intn(2) == 0 {
			sysc = pick(c, "write", "ftruncate", "munmap", "mmap", "unlinkat", "openat", "renameat")
			when = 1 + c.Rng.Intn(60)
		}
		end, acks := m.runChild(c, dc, sysc, when, 1+c.Rng.Intn(60), time.Duration(c.Rng.Intn(2000))*time.Microsecond)
		c.Count("acked", acks)
		what := fmt.Sprintf("kill #%d (%s when=%d, %d batches acknowledged)", i, end, when, acks)
		shape += fmt.Sprintf("|%s.%d.%d", end, when, acks)
		dc.mutate(c)
		m.verify(c, dc, what)
		if dc.Remote && c.Rng.Intn(2) == 0 {
			d07DropLocal(c, m, dc, what)
		}
	}
	c.Distinct(shape)
	c.Sample("%s", shape)
}

// d07DropLocal moves all the local files to the remote storage and checks the content again
func d07DropLocal(c *fw.Case, m *d07Model, dc d07Cfg, what string) {
	s := dc.stack()
	for _, lid := range dc.Lids {
		cis, err := s.meta.GetChunks(fw.Ctx(), lid)
		fw.Must(err)
		for _, ci := range cis {
			if err := s.repl.DeleteChunk(fw.Ctx(), ci.ID, chunkfs.RFRemoteSync); err != nil {
				c.Fail("sweep-error", "%s: the file %s could not be moved to the remote storage: %v", what, ci.ID, err)
			}
			c.Count("moved", 1)
		}
	}
	s.close()
	m.verify(c, dc, what+" and moving the files to the remote storage")
}

// d07Growth: a kill at the moments when a file is being extended and remapped
func d07Growth(c *fw.Case) {
	m, dc := newD07(c)
	dc.Chunk = chunkfs.Config{NewSize: blk, MaxChunkSize: 64 * blk, MaxGrowIncreaseSize: int64(pick(c, 1, 1, 2, 4)) * blk}
	dc.Fill = pick(c, 0, 10, 300)
	dc.MaxOpened = 4
	shape := fmt.Sprint(dc.Chunk, dc.Fill)
	for i := 0; i < 3 && !c.Failed(); i++ {
		dc.Cycle = i + 1
		dc.Seed = c.Rng.Int63()
		sysc := pick(c, "ftruncate", "ftruncate", "munmap")
		when := 1 + c.Rng.Intn(8)
		end, acks := m.runChild(c, dc, sysc, when, 100000, 0)
		c.Count("acked", acks)
		shape += fmt.Sprintf("|%s.%d.%d", end, when, acks)
		m.verify(c, dc, fmt.Sprintf("kill #%d (%s when=%d, %d batches acknowledged)", i, end, when, acks))
	}
	c.Distinct(shape)
	c.Sample("%s", shape)
}

// d07Restart closes and reopens the storage with changing settings
func d07Restart(c *fw.Case) {
	m, dc := newD07(c)
	shape := fmt.Sprint(dc.Chunk)
	for i := 0; i < 4+c.Rng.Intn(4) && !c.Failed(); i++ {
		dc.Cycle = i + 1
		s := dc.stack()
		for b := 0; b < c.Rng.Intn(20); b++ {
			li := c.Rng.Intn(len(dc.Lids))
			lid := dc.Lids[li]
			w := 100*dc.Cycle + li
			n := 1 + c.Rng.Intn(5)
			var pls [][]byte
			for k := 0; k < n; k++ {
				pls = append(pls, taggedPayload(c.Rng, w, b, k, n, c.Rng.Intn(dc.Fill+1)))
			}
			ids, added, err := s.append(lid, pls)
			if err != nil || added != n {
				c.Fatal("append-error", "append failed: added=%d err=%v cfg=%+v", added, err, dc)
			}
			m.line(fmt.Sprintf("A %s %d %d %s", lid, w, b, strings.Join(ids, " ")))
			c.Count("acked", n)
		}
		s.close()
		time.Sleep(2 * time.Millisecond)
		dc.mutate(c)
		shape += fmt.Sprint(dc.Chunk)
		c.Count("restarts", 1)
		m.verify(c, dc, fmt.Sprintf("restart #%d", i))
	}
	c.Distinct(shape)
	c.Sample("%s", shape)
}
