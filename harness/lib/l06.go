package lib

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/solarisdb/solaris/golibs/timeout"
	"verif/harness/fw"
)

func init() {
	fw.Subcommand("l06child", l06Child)
	fw.Register(&fw.Prop{
		ID: "L06",
		Rule: "calls: goroutines schedule functions with random delays (zero and negative too), cancel some of them at random moments, also from the functions; the functions are quick, slow, or blocked " +
			"till the end (up to 8 at a time), they schedule more. A function runs exactly once and not before its time, not at all if the cancel returned before the time, " +
			"and soon after its time even while others are blocked. sparse: fresh processes make few calls with pauses: blocking functions one after another, equal times, cancels " +
			"of the nearest one while all are busy, releases; the same monitor. Non-trivial: cancels before the time, blocked functions; distinct by the outcomes",
		Assumptions: []string{"soon is 3 seconds; not judged if the process was stalled for half a second", "less than 9 functions are blocked at a time"},
		MinEvents:   []string{"called", "cancelled", "late-cancel", "blocked", "nested", "sparse-called", "sparse-cancelled", "sparse-blocked"},
		Scens: []fw.Scenario{
			{Name: "sparse", Quick: 48, Thorough: 800, Run: l06Sparse},
			{Name: "calls", Quick: 64, Thorough: 1500, Run: l06Calls},
		},
	})
}

type tcall struct {
	id     string
	due    time.Time // the function must not be called before
	runs   atomic.Int32
	dead   atomic.Bool // cancelled in time
	late   atomic.Bool // cancelled after its time, may be called or not
	ranAt  atomic.Int64
	doneCh chan struct{}
}

func l06Calls(c *fw.Case) {
	var lock sync.Mutex
	var all []*tcall
	var wg sync.WaitGroup
	release := make(chan struct{})
	blocked := 0
	maxBlocked := c.Rng.Intn(9)
	var sched func(id string, d time.Duration, kind, depth int) (*tcall, timeout.Future)
	sched = func(id string, d time.Duration, kind, depth int) (*tcall, timeout.Future) {
		t := &tcall{id: id, doneCh: make(chan struct{})}
		lock.Lock()
		if kind == 2 {
			if blocked >= maxBlocked {
				kind = 0
			} else {
				blocked++
				c.Count("blocked", 1)
			}
		}
		all = append(all, t)
		lock.Unlock()
		t.due = time.Now().Add(d)
		fu := timeout.Call(func() {
			now := time.Now()
			if n := t.runs.Add(1); n != 1 {
				c.Fail("called-twice", "the function %s is called %d times", id, n)
				return
			}
			t.ranAt.Store(now.UnixNano())
			if now.Before(t.due) {
				c.Fail("called-early", "the function %s is called %v before its time", id, t.due.Sub(now))
			}
			if t.dead.Load() {
				c.Fail("called-cancelled", "the function %s is called after it was cancelled", id)
			}
			switch kind {
			case 1:
				time.Sleep(5 * time.Millisecond)
			case 2:
				<-release
			case 3:
				if depth < 3 {
					sched(fmt.Sprintf("%s.%d", id, depth), time.Duration(depth)*3*time.Millisecond, 3, depth+1)
					c.Count("nested", 1)
				}
			}
			close(t.doneCh)
		}, d)
		return t, fu
	}
	cancel := func(t *tcall, fu timeout.Future) {
		t.late.Store(true)
		fu.Cancel()
		if time.Now().Before(t.due) {
			t.dead.Store(true)
			if t.runs.Load() != 0 {
				c.Fail("called-early", "the function %s is called before its time", t.id)
			}
			c.Count("cancelled", 1)
		} else {
			c.Count("late-cancel", 1)
		}
		fu.Cancel() // one more time is fine
	}
	for g := 0; g < 4; g++ {
		r := newRng(c)
		c.Go(&wg, "scheduling", func() {
			type pending struct {
				t  *tcall
				fu timeout.Future
			}
			var ps []pending
			for i := 0; i < 40; i++ {
				d := time.Duration(r.Intn(60)) * time.Millisecond
				switch r.Intn(8) {
				case 0:
					d = 0
				case 1:
					d = -time.Duration(r.Intn(100)) * time.Millisecond
				case 2:
					d = time.Duration(r.Intn(300)) * time.Microsecond
				case 3:
					d = time.Duration(100+r.Intn(100)) * time.Millisecond
				}
				t, fu := sched(fmt.Sprintf("g%d-%d(%v)", g, i, d), d, []int{0, 0, 0, 1, 2, 3}[r.Intn(6)], 1)
				ps = append(ps, pending{t, fu})
				for n := r.Intn(3); n > 0 && len(ps) > 0; n-- {
					if r.Intn(2) == 0 {
						k := r.Intn(len(ps))
						cancel(ps[k].t, ps[k].fu)
						ps = append(ps[:k], ps[k+1:]...)
					}
				}
				if r.Intn(3) == 0 {
					time.Sleep(time.Duration(r.Intn(5000)) * time.Microsecond)
				}
			}
			// functions far in the future, they must not keep the others
			_, fu := sched(fmt.Sprintf("g%d-far", g), time.Hour, 0, 1)
			time.Sleep(time.Duration(r.Intn(50)) * time.Millisecond)
			lock.Lock()
			t := all[0]
			for _, x := range all {
				if x.id == fmt.Sprintf("g%d-far", g) {
					t = x
				}
			}
			lock.Unlock()
			cancel(t, fu)
		})
	}
	wg.Wait()
	timeout.Call(nil, 0).Cancel()
	timeout.VoidFuture.Cancel()
	// all the not cancelled ones are called, though some of them are blocked
	deadline := time.Now().Add(200 * time.Millisecond)
	for {
		lock.Lock()
		wait := 0
		var what string
		for _, t := range all {
			if t.runs.Load() == 0 && !t.late.Load() {
				wait++
				what = t.id
			}
		}
		n := len(all)
		lock.Unlock()
		if wait == 0 || stalled(time.Second/2) {
			c.Eval(n)
			break
		}
		if time.Since(deadline) > 3*time.Second {
			c.Fail("not-called", "the function %s (and %d more) is not called in 3 seconds after its time, %d functions are blocked", what, wait-1, blocked)
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	close(release)
	time.Sleep(5 * time.Millisecond)
	lock.Lock()
	defer lock.Unlock()
	called, dead := 0, 0
	for _, t := range all {
		if t.dead.Load() {
			dead++
			if t.runs.Load() != 0 {
				c.Fail("called-cancelled", "the function %s is called after it was cancelled", t.id)
			}
		} else if t.runs.Load() == 1 {
			called++
		}
	}
	c.Count("called", called)
	c.Distinct("calls", called/4, dead/4, maxBlocked)
}

// l06Sparse - few calls in a fresh process, so its workers are few too
func l06Sparse(c *fw.Case) {
	var wg sync.WaitGroup
	self, err := os.Executable()
	fw.Must(err)
	for i := 0; i < 6; i++ {
		seed := c.Rng.Int63()
		c.Go(&wg, "child", func() {
			out, err := exec.Command(self, "-prop", "l06child", strconv.FormatInt(seed, 10)).CombinedOutput()
			done := false
			for _, ln := range strings.Split(string(out), "\n") {
				f := strings.SplitN(ln, " ", 3)
				switch {
				case len(f) == 3 && f[0] == "FAIL":
					c.Fail(f[1], "(seed %d) %s", seed, f[2])
				case len(f) == 3 && f[0] == "COUNT":
					n, _ := strconv.Atoi(f[2])
					c.Count("sparse-"+f[1], n)
					c.Eval(n)
				case ln == "DONE":
					done = true
				}
			}
			if !done {
				c.Fail("child", "the process (seed %d) ends with %v: %.3000s", seed, err, out)
			}
			c.Distinct("sparse", seed)
		})
	}
	wg.Wait()
}

func l06Child(args []string) {
	seed, err := strconv.ParseInt(args[0], 10, 64)
	fw.Must(err)
	rng := rand.New(rand.NewSource(seed))
	ms := func(n int) time.Duration { return time.Duration(n) * time.Millisecond }
	type call struct {
		id              string
		due             time.Time
		runs            atomic.Int32
		cancelled, dead bool
		fu              timeout.Future
	}
	var lock sync.Mutex
	fail := func(sig, f string, a ...any) {
		lock.Lock()
		defer lock.Unlock()
		fmt.Printf("FAIL "+sig+" "+f+"\n", a...)
	}
	var all []*call
	var rel []chan struct{}
	blocked, cancels := 0, 0
	started := time.Now()
	script := ""
	sched := func(d time.Duration, block chan struct{}) *call {
		t := &call{id: fmt.Sprintf("#%d in %v at %v", len(all), d, time.Since(started).Round(time.Millisecond))}
		all = append(all, t)
		t.due = time.Now().Add(d)
		script += fmt.Sprintf(" %s blocking:%t;", t.id, block != nil)
		t.fu = timeout.Call(func() {
			if t.runs.Add(1) > 1 {
				fail("called-twice", "%s", t.id)
			}
			if time.Now().Before(t.due) {
				fail("called-early", "%s", t.id)
			}
			if block != nil {
				<-block
			}
		}, d)
		return t
	}
	cancel := func(t *call) {
		t.cancelled = true
		t.fu.Cancel()
		t.dead = time.Now().Before(t.due)
		script += " cancel " + t.id + ";"
		cancels++
	}
	// wait checks that everything in due is called
	wait := func(max time.Duration) {
		var last time.Time
		for _, t := range all {
			if !t.cancelled && t.runs.Load() == 0 && time.Until(t.due) < max && t.due.After(last) {
				last = t.due
			}
		}
		if last.IsZero() {
			return
		}
		time.Sleep(time.Until(last))
		limit := time.Now().Add(3 * time.Second)
		for {
			var late *call
			for _, t := range all {
				if !t.cancelled && t.runs.Load() == 0 && !t.due.After(last) {
					late = t
				}
			}
			if late == nil || stalled(time.Second/2) {
				return
			}
			if time.Now().After(limit) {
				fail("not-called", "the function %s is not called in 3 seconds after its time, %d functions are blocked:%s", late.id, len(rel), script)
				fmt.Println("DONE")
				os.Exit(0)
			}
			time.Sleep(ms(1))
		}
	}
	block := func(d time.Duration) {
		if len(rel) < 8 {
			ch := make(chan struct{})
			rel = append(rel, ch)
			sched(d, ch)
			blocked++
		}
	}
	// bursts: the workers finish and get idle right when new functions are added
	for s := 0; seed%2 == 0 && s < 60; s++ {
		d := ms(rng.Intn(3))
		for n := 1 + rng.Intn(4); n > 0; n-- {
			sched(d, nil)
		}
		time.Sleep(d + time.Duration(rng.Intn(400)-50)*time.Microsecond)
		for n := 1 + rng.Intn(3); n > 0; n-- {
			block(time.Duration(rng.Intn(3000)) * time.Microsecond)
			if rng.Intn(3) == 0 {
				time.Sleep(time.Duration(rng.Intn(100)) * time.Microsecond)
			}
		}
		sched(ms(3+rng.Intn(4)), nil)
		wait(ms(100))
		for _, ch := range rel {
			close(ch)
		}
		rel = nil
		script = ""
	}
	for s := 0; seed%2 != 0 && s < 14; s++ {
		switch rng.Intn(9) {
		case 0, 1:
			block(ms(rng.Intn(30)))
		case 2: // one after another
			for n := rng.Intn(5); n > 0; n-- {
				block(ms(rng.Intn(4)))
				wait(ms(100))
			}
		case 3: // at the same time, one of them blocks
			d := ms(20 + rng.Intn(20))
			block(d)
			for n := 1 + rng.Intn(3); n > 0; n-- {
				sched(d, nil)
			}
			sched(d+ms(30+rng.Intn(100)), nil)
		case 4: // the nearest one is cancelled
			d := ms(10 + rng.Intn(30))
			a := sched(d, nil)
			sched(d+ms(20+rng.Intn(40)), nil)
			time.Sleep(ms(rng.Intn(12)))
			cancel(a)
		case 5:
			if len(rel) > 0 {
				n := rng.Intn(len(rel))
				wait(ms(100)) // it blocks already
				close(rel[n])
				rel = append(rel[:n], rel[n+1:]...)
				script += " release;"
			}
		case 6:
			sched(ms(rng.Intn(60)), nil)
		case 7: // nearer than the known one
			sched(ms(60+rng.Intn(60)), nil)
			sched(ms(rng.Intn(30)), nil)
		case 8:
			sched(ms(1000*60), nil)
		}
		if rng.Intn(2) == 0 {
			wait(ms(300))
		} else {
			time.Sleep(ms(rng.Intn(25)))
		}
	}
	wait(ms(1000))
	called := 0
	for _, t := range all {
		called += int(t.runs.Load())
		if t.dead && t.runs.Load() > 0 {
			fail("called-cancelled", "%s is called, though it was cancelled before its time", t.id)
		}
	}
	fmt.Printf("COUNT called %d\nCOUNT cancelled %d\nCOUNT blocked %d\nDONE\n", called, cancels, blocked)
}
