// Package fw is the small monitoring framework shared by all the harness
// binaries: it enumerates deterministic cases, gives every case its own PRNG
// state and scratch folder, catches panics and hangs, and collects what the
// monitors observed into a JSON report the driver merges.
package fw

import (
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type (
	// Scenario is one family of cases of a property
	Scenario struct {
		Name     string
		Quick    int
		Thorough int
		Run      func(c *Case)
		// Watchdog is how long one case may run. 0 - default
		Watchdog time.Duration
	}

	// Prop binds a property to the scenarios which decide it
	Prop struct {
		ID          string
		Rule        string
		Scens       []Scenario
		Assumptions []string
		// MinEvents names counters that must be non-zero at the end of a run
		// (all shards together), otherwise the run observed nothing
		MinEvents []string
	}

	// Violation is a witnessed refutation of the property
	Violation struct {
		Sig    string `json:"sig"`
		Detail string `json:"detail"`
		Scen   string `json:"scen"`
		Idx    int    `json:"idx"`
	}

	// Report is what one shard observed
	Report struct {
		Prop        string           `json:"prop"`
		Evaluations int              `json:"evaluations"`
		Cases       int              `json:"cases"`
		Distinct    []string         `json:"distinct"`
		Samples     []string         `json:"samples"`
		Counters    map[string]int64 `json:"counters"`
		Violations  []Violation      `json:"violations"`
		Suppressed  int              `json:"suppressed"`
		Rule        string           `json:"rule"`
		Assumptions []string         `json:"assumptions"`
		MinEvents   []string         `json:"min_events"`
		Done        bool             `json:"done"`
	}

	// Case is one execution
	Case struct {
		Prop  string
		Scen  string
		Idx   int
		Seed  int64
		Tier  string
		Rng   *rand.Rand
		sh    *shard
		dir   string
		fails int
	}

	shard struct {
		lock     sync.Mutex
		rep      Report
		distinct map[uint64]struct{}
		sigs     map[string]int
		scratch  string
		out      string
		samples  map[string]int
	}

	stopCase struct{}
)

const (
	maxPerSig   = 3
	maxDistinct = 200000
)

var props = map[string]*Prop{}

// Register adds the property to the binary
func Register(p *Prop) { props[p.ID] = p }

// Hash returns FNV64 of the values
func Hash(vs ...any) uint64 {
	h := fnv.New64a()
	for _, v := range vs {
		switch x := v.(type) {
		case string:
			h.Write([]byte(x))
		case []byte:
			h.Write(x)
		default:
			fmt.Fprintf(h, "%v", v)
		}
		h.Write([]byte{0xfe})
	}
	return h.Sum64()
}

// Thorough returns whether the tier is thorough
func (c *Case) Thorough() bool { return c.Tier == "thorough" }

// Dir returns the scratch folder of the case
func (c *Case) Dir() string {
	c.sh.lock.Lock()
	defer c.sh.lock.Unlock()
	if c.dir == "" {
		d, err := os.MkdirTemp(c.sh.scratch, fmt.Sprintf("%s-%s-%d-", c.Prop, c.Scen, c.Idx))
		if err != nil {
			panic(err)
		}
		c.dir = d
	}
	return c.dir
}

// Eval counts n evaluations of the oracle
func (c *Case) Eval(n int) {
	c.sh.lock.Lock()
	c.sh.rep.Evaluations += n
	c.sh.lock.Unlock()
}

// Count adds n to the event counter
func (c *Case) Count(name string, n int) {
	c.sh.lock.Lock()
	c.sh.rep.Counters[name] += int64(n)
	c.sh.lock.Unlock()
}

// Distinct registers a distinct non-trivial behaviour
func (c *Case) Distinct(vs ...any) {
	h := Hash(vs...)
	c.sh.lock.Lock()
	if len(c.sh.distinct) < maxDistinct {
		c.sh.distinct[h] = struct{}{}
	}
	c.sh.lock.Unlock()
}

// Sample keeps a written out case, not more than two per the scenario
func (c *Case) Sample(format string, args ...any) {
	c.sh.lock.Lock()
	defer c.sh.lock.Unlock()
	if c.sh.samples[c.Scen] >= 1 {
		return
	}
	c.sh.samples[c.Scen]++
	s := fmt.Sprintf(format, args...)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	c.sh.rep.Samples = append(c.sh.rep.Samples, fmt.Sprintf("%s/%s#%d: %s", c.Prop, c.Scen, c.Idx, s))
}

// Fail records a violation. sig is the stable signature of the violation kind
func (c *Case) Fail(sig, format string, args ...any) {
	c.sh.lock.Lock()
	defer c.sh.lock.Unlock()
	c.fails++
	c.sh.sigs[sig]++
	if c.sh.sigs[sig] > maxPerSig {
		c.sh.rep.Suppressed++
		return
	}
	d := fmt.Sprintf(format, args...)
	if len(d) > 6000 {
		d = d[:6000] + "..."
	}
	c.sh.rep.Violations = append(c.sh.rep.Violations, Violation{Sig: sig, Detail: d, Scen: c.Scen, Idx: c.Idx})
}

// Fatal records a violation and stops the case. Must be called from the case goroutine
func (c *Case) Fatal(sig, format string, args ...any) {
	c.Fail(sig, format, args...)
	panic(stopCase{})
}

// Failed returns whether the case found something
func (c *Case) Failed() bool {
	c.sh.lock.Lock()
	defer c.sh.lock.Unlock()
	return c.fails > 0
}

// Stop ends the case
func (c *Case) Stop() { panic(stopCase{}) }

// Must checks what may not fail. It stops the harness if err is a problem of the environment (no
// resources), otherwise this is a violation: the code under test fails or spoiled what the harness relies on
func Must(err error) {
	if err == nil {
		return
	}
	for _, e := range []error{syscall.ENOSPC, syscall.EMFILE, syscall.ENFILE, syscall.ENOMEM, syscall.EDQUOT, syscall.EROFS, syscall.EACCES, syscall.EPERM, syscall.EADDRINUSE, syscall.EADDRNOTAVAIL} {
		if errors.Is(err, e) {
			panic(fmt.Errorf("harness environment problem: %w", err))
		}
	}
	panic(fmt.Errorf("unexpected error: %w", err))
}

// envProblem lets the panics of Must about the environment through
func envProblem(r any) {
	if err, ok := r.(error); ok && strings.HasPrefix(err.Error(), "harness environment problem") {
		panic(r)
	}
}

// Within runs f and reports the violation sig if it doesn't return within d. d must be at
// least two orders of magnitude longer than what f needs.
func (c *Case) Within(d time.Duration, sig, what string, f func()) bool {
	done := make(chan any, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				envProblem(r)
				if _, ok := r.(stopCase); !ok {
					c.Fail(PanicSig(r, debug.Stack()), "panic in %s: %v\n%s", what, r, debug.Stack())
				}
				done <- r
				return
			}
			done <- nil
		}()
		f()
	}()
	select {
	case r := <-done:
		return r == nil
	case <-time.After(d):
		c.Fail(sig, "%s did not return within %s\n%s", what, d, Stacks())
		return false
	}
}

// Go runs f in a goroutine with panic capturing
func (c *Case) Go(wg *sync.WaitGroup, what string, f func()) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		defer c.Recover(what)
		f()
	}()
}

// Recover must be deferred, turns a panic into the violation
func (c *Case) Recover(what string) {
	if r := recover(); r != nil {
		if _, ok := r.(stopCase); ok {
			return
		}
		envProblem(r)
		c.Fail(PanicSig(r, debug.Stack()), "panic in %s: %v\n%s", what, r, debug.Stack())
	}
}

// Try calls f and returns the panic value and the stack if it panics
func Try(f func()) (pv any, stack string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopCase); ok {
				panic(r)
			}
			envProblem(r)
			pv = r
			stack = string(debug.Stack())
		}
	}()
	f()
	return nil, ""
}

// PanicSig makes the stable signature of a panic: the topmost function of the code under test
func PanicSig(r any, stack []byte) string {
	fn := "unknown"
	for _, ln := range strings.Split(string(stack), "\n") {
		if strings.HasPrefix(ln, "github.com/solarisdb/solaris/") {
			fn = strings.TrimPrefix(ln, "github.com/solarisdb/solaris/")
			if i := strings.LastIndex(fn, "("); i > 0 {
				fn = fn[:i]
			}
			break
		}
	}
	if i := strings.IndexAny(fn, "[0"); i > 0 && strings.Contains(fn, "...") {
		fn = fn[:i]
	}
	return "panic:" + fn
}

// Stacks returns all goroutine stacks
func Stacks() string {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	s := string(buf[:n])
	if len(s) > 12000 {
		s = s[:12000] + "..."
	}
	return s
}

// enough is how long the quick run goes on if there are violations already: every one may cost
// a long waiting
const enough = 240 * time.Second

func (s *shard) failed() bool {
	s.lock.Lock()
	defer s.lock.Unlock()
	return len(s.rep.Violations) > 0
}

func (s *shard) write() {
	s.lock.Lock()
	defer s.lock.Unlock()
	s.rep.Distinct = s.rep.Distinct[:0]
	for h := range s.distinct {
		s.rep.Distinct = append(s.rep.Distinct, strconv.FormatUint(h, 36))
	}
	sort.Strings(s.rep.Distinct)
	b, err := json.Marshal(s.rep)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(s.out+".tmp", b, 0o644); err != nil {
		panic(err)
	}
	if err := os.Rename(s.out+".tmp", s.out); err != nil {
		panic(err)
	}
}

func (s *shard) runCase(p *Prop, sc *Scenario, idx int, seed int64, tier string) {
	h := Hash(seed, p.ID, sc.Name, idx)
	c := &Case{Prop: p.ID, Scen: sc.Name, Idx: idx, Seed: seed, Tier: tier,
		Rng: rand.New(rand.NewSource(int64(h))), sh: s}
	_ = os.WriteFile(s.out+".cur", []byte(fmt.Sprintf("%s:%d", sc.Name, idx)), 0o644)
	wd := sc.Watchdog
	if wd == 0 {
		wd = 150 * time.Second
	}
	tm := time.AfterFunc(wd, func() {
		st := Stacks()
		c.Fail("hang:"+sc.Name, "the case did not finish within %s (it normally takes orders of magnitude less)\n%s", wd, st)
		s.write()
		fmt.Fprintf(os.Stderr, "VH-HANG %s:%d\n%s\n", sc.Name, idx, st)
		os.Exit(3)
	})
	func() {
		defer tm.Stop()
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopCase); ok {
					return
				}
				envProblem(r)
				st := debug.Stack()
				c.Fail(PanicSig(r, st), "panic: %v\n%s", r, st)
			}
		}()
		sc.Run(c)
	}()
	s.lock.Lock()
	s.rep.Cases++
	d := c.dir
	s.lock.Unlock()
	if d != "" {
		_ = os.RemoveAll(d)
	}
}

// Main is the entry point of a harness binary
func Main() {
	prop := flag.String("prop", "", "property ID")
	tier := flag.String("tier", "quick", "tier")
	seed := flag.Int64("seed", 1, "PRNG seed")
	shardF := flag.String("shard", "0/1", "shard i/n")
	out := flag.String("out", "", "report file")
	scratch := flag.String("scratch", "", "scratch folder")
	one := flag.String("case", "", "scenario:idx, run only this case")
	scale := flag.Float64("scale", 1, "scale of the number of cases")
	flag.Parse()
	if h, ok := subcommands[*prop]; ok {
		h(flag.Args())
		return
	}
	p, ok := props[*prop]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(2)
	}
	if *scratch == "" {
		d, err := os.MkdirTemp("", "vh-")
		Must(err)
		*scratch = d
		defer os.RemoveAll(d)
	}
	if *out == "" {
		*out = filepath.Join(*scratch, "report.json")
	}
	var si, sn int
	if _, err := fmt.Sscanf(*shardF, "%d/%d", &si, &sn); err != nil {
		panic(err)
	}
	s := &shard{distinct: map[uint64]struct{}{}, sigs: map[string]int{}, scratch: *scratch, out: *out, samples: map[string]int{}}
	s.rep = Report{Prop: p.ID, Counters: map[string]int64{}, Rule: p.Rule, Assumptions: p.Assumptions, MinEvents: p.MinEvents}
	if *one != "" {
		nm, is, _ := strings.Cut(*one, ":")
		idx, err := strconv.Atoi(is)
		Must(err)
		for i := range p.Scens {
			if p.Scens[i].Name == nm {
				s.runCase(p, &p.Scens[i], idx, *seed, *tier)
			}
		}
	} else {
		k := 0
		started := time.Now()
		for i := 0; i < len(p.Scens); i++ {
			sc := &p.Scens[i]
			n := sc.Quick
			if *tier == "thorough" {
				n = sc.Thorough
			}
			n = int(float64(n) * *scale)
			if n == 0 {
				n = 1
			}
			for idx := 0; idx < n; idx++ {
				if k%sn == si {
					t0 := time.Now()
					s.runCase(p, sc, idx, *seed, *tier)
					s.rep.Counters["ms:"+sc.Name] += time.Since(t0).Milliseconds()
					if s.failed() {
						s.write() // in case it is killed later
						if *tier != "thorough" && time.Since(started) > enough {
							i = len(p.Scens) // the answer is known, don't spend the time
							break
						}
					}
				}
				k++
			}
		}
	}
	s.rep.Done = true
	s.write()
	for _, v := range s.rep.Violations {
		fmt.Printf("V %s %s:%d %s\n", v.Sig, v.Scen, v.Idx, v.Detail)
	}
	if sn == 1 {
		cs := []string{}
		for k, v := range s.rep.Counters {
			cs = append(cs, fmt.Sprintf("%s=%d", k, v))
		}
		sort.Strings(cs)
		fmt.Printf("cases=%d evals=%d distinct=%d violations=%d suppressed=%d %s\n", s.rep.Cases, s.rep.Evaluations, len(s.distinct), len(s.rep.Violations), s.rep.Suppressed, strings.Join(cs, " "))
	}
}

var subcommands = map[string]func(args []string){}

// Subcommand registers a child-process entry point (used for the crash tests)
func Subcommand(name string, f func(args []string)) { subcommands[name] = f }

// Ctx is the background context
func Ctx() context.Context { return context.Background() }
