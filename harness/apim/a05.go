package apim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/solarisdb/solaris/cmd/solaris/commands"
	"verif/harness/fw"
	"verif/harness/minisql"
)

func init() {
	fw.Register(&fw.Prop{
		ID: "A05",
		Rule: "process: the real server command runs as a process with a random configuration (file and environment) over an emulated PostgreSQL server; 2-5 gRPC and REST clients create, tag, delete logs and " +
			"append; then the process is killed, or asked to stop by SIGTERM or SIGINT in the middle of that, or the database connections are broken under it, and it is started again, 2-3 times. Acknowledged " +
			"changes must be visible at once and after the restart, the one in progress may be applied; the process which is asked to stop must end in time with no error; the number of mapped files and of database " +
			"connections follows the configuration. stop: the process is asked to stop while the statements of several requests are held by the database, then the database goes on at once: the requests must get their answers, " +
			"no connection may be cut before the second which the servers give to the requests in progress. refuse: a wrong configuration, a busy port or an unavailable database end the process with an error. Distinct by the way of the end and what was in progress",
		MinEvents: []string{"acked", "cut", "restarts", "logs-checked", "common-recs", "kills", "stops", "db-drops", "maps-checks", "refused-start", "answered-at-stop"},
		Assumptions: []string{"the database survives; it is an emulation of the PostgreSQL protocol and of the statements used", "no power failure",
			"the background scanner has default thresholds: nothing is swept"},
		Scens: []fw.Scenario{
			{Name: "process", Quick: 32, Thorough: 1600, Run: a05Process, Watchdog: 3 * time.Minute},
			{Name: "stop", Quick: 24, Thorough: 400, Run: a05Stop, Watchdog: 3 * time.Minute},
			{Name: "refuse", Quick: 16, Thorough: 200, Run: a05Refuse, Watchdog: 3 * time.Minute},
		},
	})
	fw.Subcommand("a05serve", func(args []string) {
		os.Args = append([]string{"solaris", "start", "--config"}, args...)
		commands.Execute()
	})
}

type (
	proc struct {
		c      *fw.Case
		s      *srv
		cmd    *exec.Cmd
		errs   lockedBuf
		exited chan struct{}
		pcfg   pconf
	}

	// pconf is the configuration of the process
	pconf struct {
		dir, data   string
		gport       int
		hport       int
		dbAddr      *net.TCPAddr
		opened      int
		maxConns    int
		user, dbase string
		fastExit    bool
		pass        string
	}
)

var portSlot int

// procPort gives the ports no other shard uses: the HTTP server listens to them on all the addresses
func procPort() int {
	portLock.Lock()
	defer portLock.Unlock()
	for i := 0; i < 400; i++ {
		portSlot = (portSlot + 1) % 40
		p := 15000 + os.Getpid()%400*40 + portSlot
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err == nil {
			l.Close()
			return p
		}
	}
	panic(fmt.Errorf("harness environment problem: no free port"))
}

// command makes the process: some settings are given by the file, others by the environment, which wins
func (p *pconf) command(c *fw.Case, r *rand.Rand) *exec.Cmd {
	type m = map[string]any
	file := m{}
	env := []string{}
	set := func(path []string, v any) {
		where := r.Intn(3)
		name := "SOLARIS_" + strings.ToUpper(strings.Join(path, "_"))
		js, err := json.Marshal(v)
		fw.Must(err)
		val := strings.Trim(string(js), `"`)
		if where > 0 { // the file
			f := file
			for _, k := range path[:len(path)-1] {
				if f[k] == nil {
					f[k] = m{}
				}
				f = f[k].(m)
			}
			f[path[len(path)-1]] = v
			if where == 2 {
				// the value of the file is overwritten
				switch v.(type) {
				case int:
					f[path[len(path)-1]] = 1
				default:
					f[path[len(path)-1]] = "wrong"
				}
			}
		}
		if where != 1 {
			env = append(env, name+"="+val)
		}
	}
	set([]string{"GrpcTransport", "Network"}, "tcp")
	set([]string{"GrpcTransport", "Address"}, "127.0.0.1")
	set([]string{"GrpcTransport", "Port"}, p.gport)
	set([]string{"HttpPort"}, p.hport)
	set([]string{"LocalDBFilePath"}, p.data)
	set([]string{"MaxOpenedLogFiles"}, p.opened)
	set([]string{"DB", "Host"}, p.dbAddr.IP.String())
	set([]string{"DB", "Port"}, fmt.Sprint(p.dbAddr.Port))
	set([]string{"DB", "Username"}, p.user)
	set([]string{"DB", "Password"}, p.pass)
	set([]string{"DB", "DBName"}, p.dbase)
	set([]string{"DB", "MaxConnections"}, p.maxConns)
	js, err := json.Marshal(file)
	fw.Must(err)
	cf := filepath.Join(p.dir, "solaris.json")
	fw.Must(os.WriteFile(cf, js, 0o644))
	exe, err := os.Executable()
	fw.Must(err)
	cmd := exec.Command(exe, "-prop", "a05serve", cf)
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "SOLARIS") && !strings.HasPrefix(e, "PG") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, env...)
	cmd.Env = append(cmd.Env, "GIN_MODE=release")
	if p.fastExit {
		// the race detector makes the process wait for a second before it ends otherwise
		cmd.Env = append(cmd.Env, strings.TrimSpace("GORACE="+os.Getenv("GORACE")+" atexit_sleep_ms=0"))
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.Dir = p.dir
	return cmd
}

func (p *pconf) run(c *fw.Case, r *rand.Rand) *proc {
	pr := &proc{c: c, cmd: p.command(c, r), exited: make(chan struct{}), pcfg: *p}
	pr.cmd.Stderr, pr.cmd.Stdout = &pr.errs, &pr.errs
	fw.Must(pr.cmd.Start())
	go func() {
		_ = pr.cmd.Wait()
		close(pr.exited)
	}()
	pr.s = &srv{c: c, gaddr: fmt.Sprintf("127.0.0.1:%d", p.gport), haddr: fmt.Sprintf("127.0.0.1:%d", p.hport)}
	return pr
}

func (p *proc) tail() string {
	p.errs.lock.Lock()
	defer p.errs.lock.Unlock()
	b := p.errs.b.Bytes()
	return string(b[max(0, len(b)-30000):])
}

// crashed reports the process which ended on its own
func (p *proc) crashed(what string) {
	p.errs.lock.Lock()
	se := p.errs.b.String()
	p.errs.lock.Unlock()
	i := strings.Index(se, "panic:")
	if j := strings.Index(se, "fatal error:"); i < 0 || j >= 0 && j < i {
		i = j
	}
	if i < 0 {
		i = max(0, len(se)-3000)
	}
	se = se[i:]
	p.c.Fatal("server-"+fw.PanicSig(nil, []byte(se)), "%s: the server process ended (%v): %s", what, p.cmd.ProcessState, se[:min(len(se), 3500)])
}

func (p *proc) wait() {
	for end := time.Now().Add(inTime); ; time.Sleep(3 * time.Millisecond) {
		ok, why := true, error(nil)
		for _, a := range []string{p.s.gaddr, p.s.haddr} {
			cn, err := net.Dial("tcp", a)
			if err != nil {
				ok, why = false, err
				break
			}
			cn.Close()
		}
		if ok {
			return
		}
		select {
		case <-p.exited:
			p.crashed("at the start")
		default:
		}
		if time.Now().After(end) {
			_ = p.cmd.Process.Signal(syscall.SIGQUIT)
			time.Sleep(2 * time.Second)
			p.kill()
			p.c.Fatal("not-listening", "the server doesn't listen on both ports in %v (%v): %s", inTime, why, p.tail())
		}
	}
}

func (p *proc) kill() {
	_ = p.cmd.Process.Kill()
	<-p.exited
}

// failStop returns whether the process stopped itself, because the data of an append is written, but it is not possible to
// record that in the database: this is what the server does by its design
func (p *proc) failStop() bool {
	select {
	case <-p.exited:
	default:
		return false
	}
	p.errs.lock.Lock()
	defer p.errs.lock.Unlock()
	return bytes.Contains(p.errs.b.Bytes(), []byte("panic: unrecoverable error, data is corrupted"))
}

// checkMaps counts the mapped files of the logs
func (p *proc) checkMaps() {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/maps", p.cmd.Process.Pid))
	if err != nil {
		return
	}
	n := bytes.Count(b, []byte(p.pcfg.data+"/"))
	p.c.Count("maps-checks", 1)
	if n > p.pcfg.opened {
		p.c.Fail("maps", "the process maps %d files, the configured maximum is %d", n, p.pcfg.opened)
	}
}

func a05Conf(c *fw.Case) (*pconf, *minisql.DB, *minisql.Wire, *sync.Map) {
	r := c.Rng
	db := minisql.NewDB()
	l, err := net.Listen("tcp", "127.0.0.1:0")
	fw.Must(err)
	w := db.Serve(l)
	var seen sync.Map
	p := &pconf{dir: c.Dir(), dbAddr: l.Addr().(*net.TCPAddr), gport: procPort(), hport: procPort(), opened: 2 + r.Intn(8), maxConns: 2 + r.Intn(20),
		user: pick(r, "u", "the user"), dbase: pick(r, "d", "d-1"), pass: pick(r, "p", "p@ss w0rd")}
	p.data = filepath.Join(p.dir, pick(r, "data", "a/b"))
	w.Startup = func(ps map[string]string) { seen.Store(ps["user"]+"/"+ps["database"], true) }
	return p, db, w, &seen
}

func a05Process(c *fw.Case) {
	r := c.Rng
	p, _, w, seen := a05Conf(c)
	defer w.Close()
	common := ""
	var as []*aclient
	for n := 2 + r.Intn(4); n > 0; n-- {
		as = append(as, &aclient{c: c, r: rand.New(rand.NewSource(r.Int63())), n: n, logs: map[string]*alog{}})
	}
	rounds := 2 + r.Intn(2)
	for round := 0; round <= rounds && !c.Failed(); round++ {
		pr := p.run(c, r)
		s := pr.s
		func() {
			defer func() {
				pr.kill()
				s.closeClients()
			}()
			pr.wait()
			if round > 0 {
				c.Count("restarts", 1)
			}
			var rcs []*restCli
			for _, a := range as {
				rc := s.rest()
				rc.all = true
				rcs = append(rcs, rc)
				a.cls = []client{s.grpc(), rc}
			}
			defer func() {
				for _, rc := range rcs {
					rc.hc.CloseIdleConnections()
				}
			}()
			if common == "" {
				l, k := as[0].cls[0].createLog(map[string]string{"owner": "all"})
				if k != "" {
					c.Fatal("create", "the common log is not created: %s; %s", k, pr.tail())
				}
				common = l.ID
			}
			if round > 0 {
				cl := as[0].cls[r.Intn(2)]
				for _, a := range as {
					a.verify(cl)
				}
				got, k := readLog(cl, common)
				if k != "" {
					c.Fatal("restart-read", "reading after the restart: %s", k)
				}
				total := 0
				for _, a := range as {
					a.common(got)
					a.commP = nil
					total += len(a.comm)
				}
				if total != len(got) {
					c.Fail("common-log", "the common log has %d records, the clients know %d", len(got), total)
				}
				c.Count("common-recs", len(got))
			}
			if w.Conns() > p.maxConns+1 { // the one which is being closed
				c.Fail("db-conns", "%d connections to the database, the configured maximum is %d", w.Conns(), p.maxConns)
			}
			seen.Range(func(k, _ any) bool {
				if k != p.user+"/"+p.dbase {
					c.Fail("db-user", "the server connects as %q, configured %s/%s", k, p.user, p.dbase)
				}
				return true
			})
			pr.checkMaps()
			if round == rounds || c.Failed() {
				return
			}
			var stop atomic.Bool
			var wg sync.WaitGroup
			var cnt atomic.Int64
			for _, a := range as {
				c.Go(&wg, "the client", func() {
					for i := 0; i < 3000; i++ {
						if !a.step(common, &stop) || c.Failed() {
							return
						}
						cnt.Add(1)
					}
				})
			}
			target := int64((20 + r.Intn(60)) * len(as))
			for end := time.Now().Add(2 * inTime); cnt.Load() < target && time.Now().Before(end); time.Sleep(time.Millisecond) {
				if c.Failed() {
					time.Sleep(300 * time.Millisecond) // the process may be ending
					break
				}
				select {
				case <-pr.exited:
					pr.crashed("under the load")
				default:
				}
			}
			select {
			case <-pr.exited:
				pr.crashed("under the load")
			default:
			}
			pr.checkMaps()
			how := pick(r, "kill", "kill", "term", "int", "drop", "drop-term")
			time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
			stop.Store(true)
			drop := strings.HasPrefix(how, "drop")
			if drop {
				for _, rc := range rcs {
					rc.noBody.Store(true)
				}
				for _, a := range as {
					a.drop.Store(true)
				}
				defer func() {
					wg.Wait()
					for _, a := range as {
						a.drop.Store(false)
					}
				}()
				if w.Drop() > 0 {
					c.Count("db-drops", 1)
				}
				// it must go on serving
				cl := s.grpc()
				for end := time.Now().Add(inTime); ; time.Sleep(2 * time.Millisecond) {
					if _, k := cl.queryLogs("tag('owner') = 'all'", "", ptr(10)); k == "" {
						break
					}
					if pr.failStop() {
						break
					}
					if time.Now().After(end) {
						c.Fail("db-lost", "the server doesn't serve requests %v after the database connections were broken: %s", inTime, pr.tail())
						break
					}
				}
			}
			if drop && pr.failStop() {
				c.Count("fail-stops", 1)
				how = "fail-stop"
			}
			switch how {
			case "fail-stop":
			case "kill", "drop":
				c.Count("kills", 1)
				pr.kill()
			default:
				c.Count("stops", 1)
				sig := syscall.SIGTERM
				if how == "int" {
					sig = syscall.SIGINT
				}
				_ = pr.cmd.Process.Signal(sig)
				select {
				case <-pr.exited:
				case <-time.After(inTime):
					c.Fail("stop-hangs", "the process doesn't end in %v after %v: %s", inTime, sig, pr.tail())
					pr.kill()
				}
				if ps := pr.cmd.ProcessState; ps != nil && !ps.Success() && !c.Failed() && !(drop && pr.failStop()) {
					pr.crashed("on " + sig.String())
				}
			}
			wg.Wait()
			pending := 0
			for _, a := range as {
				pending += len(a.commP)
			}
			c.Distinct(how, len(as), pending, cnt.Load()/10)
			c.Eval(1)
		}()
	}
}

// a05Stop - the requests in progress get their answers when the process is asked to stop
func a05Stop(c *fw.Case) {
	r := c.Rng
	p, db, w, _ := a05Conf(c)
	defer w.Close()
	p.maxConns = 10 + r.Intn(10)
	p.fastExit = true
	var armed, held atomic.Int32
	hold := make(chan struct{})
	release := sync.OnceFunc(func() { close(hold) })
	db.Fault = func(stmt string, row int) error {
		if row < 0 && armed.Load() > 0 {
			held.Add(1)
			<-hold
		}
		return nil
	}
	pr := p.run(c, r)
	s := pr.s
	defer s.closeClients()
	defer pr.kill()
	defer release()
	pr.wait()
	rc := s.rest()
	rc.all = true
	defer rc.hc.CloseIdleConnections()
	cls := []client{s.grpc(), rc, s.grpc()}
	var ids []string
	for _, cl := range cls {
		l, k := cl.createLog(map[string]string{"n": "1"})
		if k != "" {
			c.Fatal("create", "a log is not created: %s; %s", k, pr.tail())
		}
		ids = append(ids, l.ID)
	}
	armed.Store(1)
	type res struct{ what, kind string }
	n := 1 + r.Intn(5)
	var lock sync.Mutex
	var early, late []res
	out := &early
	done := func() int {
		lock.Lock()
		defer lock.Unlock()
		return len(early) + len(late)
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		cl, op, id := cls[r.Intn(len(cls))], r.Intn(5), pick(r, ids...)
		c.Go(&wg, "the client", func() {
			k, what := "", cl.name()
			switch op {
			case 0:
				what += " create"
				_, k = cl.createLog(map[string]string{"n": "2"})
			case 1:
				what += " update"
				_, k = cl.updateLog(id, map[string]string{"n": "3"})
			case 2:
				what += " query logs"
				_, k = cl.queryLogs("tag('n') != '7'", "", ptr(10))
			case 3:
				what += " append"
				_, k = cl.appendRecs(id, []string{"a", "b"})
			case 4:
				what += " delete"
				_, k = cl.deleteLogs("logID = '" + id + "'")
			}
			lock.Lock()
			defer lock.Unlock()
			*out = append(*out, res{what, k})
		})
	}
	for end := time.Now().Add(2 * time.Second); time.Now().Before(end) && int(held.Load())+done() < n; {
		time.Sleep(time.Millisecond)
	}
	time.Sleep(20 * time.Millisecond)
	lock.Lock()
	out = &late
	lock.Unlock()
	nHeld := int(held.Load())
	start := time.Now()
	sig := pick(r, syscall.SIGTERM, syscall.SIGINT)
	_ = pr.cmd.Process.Signal(sig)
	time.Sleep(time.Duration(r.Intn(200)) * time.Millisecond)
	release()
	select {
	case <-pr.exited:
	case <-time.After(inTime):
		c.Fatal("stop-hangs", "the process doesn't end in %v after %v: %s", inTime, sig, pr.tail())
	}
	took := time.Since(start)
	if ps := pr.cmd.ProcessState; !ps.Success() {
		pr.crashed("on " + sig.String())
	}
	wg.Wait()
	// the servers give a second to the requests
	if took < 900*time.Millisecond && int(held.Load()) >= nHeld && len(early)+nHeld >= n {
		for _, x := range late {
			if x.kind == "internal(connection)" || x.kind == "internal(Unavailable)" || x.kind == "internal(Canceled)" {
				c.Fail("cut-at-stop", "the process is asked to stop by %v while %d requests are in progress, it ended in %v, but the request %q got no answer: %s", sig, nHeld, took, x.what, x.kind)
			} else {
				c.Count("answered-at-stop", 1)
			}
			c.Distinct("stop", x.what, x.kind, len(late))
		}
	}
	c.Eval(1)
	c.Sample("%v: %d requests in progress got %v in %v", sig, nHeld, late, took)
}

func a05Refuse(c *fw.Case) {
	r := c.Rng
	p, _, w, _ := a05Conf(c)
	defer w.Close()
	why := pick(r, "grpc-port", "http-port", "db", "path", "file")
	var busy net.Listener
	var err error
	switch why {
	case "grpc-port":
		busy, err = net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p.gport))
	case "http-port":
		busy, err = net.Listen("tcp", fmt.Sprintf(":%d", p.hport))
	case "db":
		w.Close()
	case "path":
		p.data = filepath.Join(p.dir, "file", "sub")
		err = os.WriteFile(filepath.Join(p.dir, "file"), []byte("x"), 0o644)
	}
	fw.Must(err)
	if busy != nil {
		defer busy.Close()
	}
	cmd := p.command(c, r)
	if why == "file" {
		cmd.Args[len(cmd.Args)-1] += ".absent.json"
	}
	var out lockedBuf
	cmd.Stdout, cmd.Stderr = &out, &out
	fw.Must(cmd.Start())
	done := make(chan struct{})
	go func() {
		_ = cmd.Wait()
		close(done)
	}()
	select {
	case <-done:
		if cmd.ProcessState.Success() {
			c.Fail("refuse:"+why, "the server which cannot start (%s) ends as if it was fine: %s", why, out.take())
		}
	case <-time.After(inTime):
		c.Fail("refuse:"+why, "the server which cannot work (%s) doesn't end: %s", why, out.take())
		_ = cmd.Process.Kill()
		<-done
	}
	c.Eval(1)
	c.Count("refused-start", 1)
	c.Distinct("refuse", why, r.Intn(4))
}
