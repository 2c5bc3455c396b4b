package lib

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"sync/atomic"
	"time"
	_ "unsafe" // for linkname

	serrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/kvs"
	dist "github.com/solarisdb/solaris/golibs/kvs/distlock"
	gsync "github.com/solarisdb/solaris/golibs/sync"
	"verif/harness/fw"
)

// leaseTTL is the lease time of the locks. If the linker doesn't find the variable (it is
// renamed, for instance), it is zero and the scenarios run with the original 10 seconds
//
//go:linkname leaseTTL github.com/solarisdb/solaris/golibs/kvs/distlock.defaultLeaseTimeout
var leaseTTL time.Duration

// ttl is the lease time of the scenarios where it matters
var ttl = func() time.Duration {
	if leaseTTL == 10*time.Second {
		leaseTTL = 2 * time.Second
		return leaseTTL
	}
	return 10 * time.Second
}()

func init() {
	fw.Register(&fw.Prop{
		ID: "K03",
		Rule: "mutex: goroutines of several lock providers over one storage (in-memory or redis) take and release the same named locks by Lock, TryLock and LockWithCtx with random deadlines; " +
			"a monitor counts the holders of every name (at most one) and who waits (everyone gets it or its deadline; the lock is free at the end). lease: a lock is held for several " +
			"lease times and nobody gets it. dead: the holder loses the storage, the lock is taken over after its lease only, and its late release doesn't release the new " +
			"holder. late-release: the lock is released right before its lease (not renewed) ends and the storage is slow to delete the record; nobody else's lock is released by that. tries: many goroutines try one locker with no pauses while the lock is held elsewhere. shutdown: waiters and newcomers are refused after the shutdown. Non-trivial: there are waiters while the lock is held; distinct by the backend and the outcomes",
		Assumptions: []string{"holders renew their leases in time (not stalled for a half of the lease) except the dead one", "in time is 10 seconds over the deadline or the lease"},
		MinEvents:   []string{"acquired", "waited", "try-failed", "deadline", "kept", "taken-over", "released-late", "tried", "refused"},
		Scens: []fw.Scenario{
			{Name: "lease", Quick: 4, Thorough: 40, Run: k03Lease},
			{Name: "dead", Quick: 4, Thorough: 40, Run: k03Dead},
			{Name: "late-release", Quick: 4, Thorough: 40, Run: k03LateRelease},
			{Name: "tries", Quick: 24, Thorough: 240, Run: k03Tries},
			{Name: "mutex", Quick: 120, Thorough: 3000, Run: k03Mutex},
			{Name: "shutdown", Quick: 80, Thorough: 1000, Run: k03Shutdown},
		},
	})
}

type locks struct {
	c       *fw.Case
	holders map[string]*int32
	waiting map[string]*int32
}

func (l *locks) enter(name, who string) {
	if n := atomic.AddInt32(l.holders[name], 1); n != 1 {
		l.c.Fail("two-holders", "%d holders of the lock %s, when %s gets it", n, name, who)
	}
}

func (l *locks) leave(name string) { atomic.AddInt32(l.holders[name], -1) }

func k03Mutex(c *fw.Case) {
	b := newBackend(c.Idx, true)
	defer b.close()
	names := []string{"x", "y/z"}[:1+c.Rng.Intn(2)]
	l := &locks{c: c, holders: map[string]*int32{}}
	guarded := map[string]*int{}
	for _, n := range names {
		l.holders[n] = new(int32)
		guarded[n] = new(int)
	}
	var wg sync.WaitGroup
	total := map[string]*int64{}
	for _, n := range names {
		total[n] = new(int64)
	}
	iters := 4 + c.Rng.Intn(12)
	if b.name == "inmem" {
		iters *= 3
	}
	hold := time.Duration(c.Rng.Intn(400)) * time.Microsecond
	var acq, tryFailed, deadlines int64
	var provs []dist.LockProvider
	for p := 0; p < 1+c.Rng.Intn(3); p++ {
		st := b.client()
		prov := dist.NewKvsLockProvider(st, "locks/")
		provs = append(provs, prov)
		if cl, ok := st.(io.Closer); ok {
			defer cl.Close()
		}
		for _, n := range names {
			for k := 0; k < 1+c.Rng.Intn(2); k++ {
				lk := prov.NewLocker(n)
				for g := 0; g < 1+c.Rng.Intn(2); g++ {
					rng := newRng(c)
					who := fmt.Sprintf("provider %d locker %d goroutine %d", p, k, g)
					c.Go(&wg, "locking", func() {
						for i := 0; i < iters; i++ {
							switch rng.Intn(4) {
							case 0:
								if !lk.TryLock(ctx) {
									atomic.AddInt64(&tryFailed, 1)
									continue
								}
							case 1:
								tmt := time.Duration(rng.Intn(3000)) * time.Microsecond
								wctx, cancel := context.WithTimeout(ctx, tmt)
								t := time.Now()
								err := lk.LockWithCtx(wctx)
								if d := time.Since(t); d > tmt+inTime {
									c.Fail("late", "%s: LockWithCtx with the timeout %v returns in %v", b.name, tmt, d)
								}
								if err != nil && wctx.Err() == nil {
									c.Fail("wrong-error", "%s: LockWithCtx: %v before the deadline", b.name, err)
								}
								cancel()
								if err != nil {
									atomic.AddInt64(&deadlines, 1)
									continue
								}
							default:
								lk.Lock()
							}
							l.enter(n, who)
							atomic.AddInt64(&acq, 1)
							*guarded[n]++
							atomic.AddInt64(total[n], 1)
							if rng.Intn(3) == 0 {
								time.Sleep(hold)
							}
							l.leave(n)
							lk.Unlock()
							if rng.Intn(3) == 0 {
								time.Sleep(time.Duration(rng.Intn(200)) * time.Microsecond)
							}
						}
					})
				}
			}
		}
	}
	if !c.Within(60*time.Second, "stuck", b.name+": locking of "+fmt.Sprint(names), wg.Wait) {
		return
	}
	c.Eval(int(acq))
	c.Count("acquired", int(acq))
	c.Count("try-failed", int(tryFailed))
	c.Count("deadline", int(deadlines))
	c.Distinct("mutex", b.name, acq, tryFailed, deadlines)
	for _, n := range names {
		if int64(*guarded[n]) != *total[n] {
			c.Fail("two-holders", "%s: %d acquisitions of %s, but the guarded counter is %d", b.name, *total[n], n, *guarded[n])
		}
		// a cancelled LockWithCtx may leave the record behind till its lease ends (the request may be executed after it is given up)
		wctx, cancel := context.WithTimeout(ctx, ttl+inTime)
		lk := provs[0].NewLocker(n)
		if err := lk.LockWithCtx(wctx); err != nil {
			c.Fail("not-free", "%s: %s is released by all, but can't be locked: %v", b.name, n, err)
		} else {
			lk.Unlock()
			if deadlines == 0 && !lk.TryLock(ctx) {
				c.Fail("not-free", "%s: TryLock of the released lock %s fails", b.name, n)
			}
		}
		cancel()
	}
	for _, p := range provs {
		p.Shutdown()
	}
	c.Sample("%s: %d acquired, %d tries failed, %d deadlines", b.name, acq, tryFailed, deadlines)
}

// k03Lease - the lock is held for longer than the lease
func k03Lease(c *fw.Case) {
	b := newBackend(c.Idx, true)
	defer b.close()
	prov := dist.NewKvsLockProvider(b, "locks/")
	other := dist.NewKvsLockProvider(b.client(), "locks/")
	defer prov.Shutdown()
	defer other.Shutdown()
	type one struct {
		name string
		lk   gsync.Locker
		held atomic.Bool
		got  atomic.Bool
	}
	var all []*one
	var wg sync.WaitGroup
	for i := 0; i < 20; i++ {
		o := &one{name: fmt.Sprintf("n%d", i)}
		o.lk = prov.NewLocker(o.name)
		for k := 0; k < i%3; k++ { // taken and released before
			o.lk.Lock()
			o.lk.Unlock()
		}
		o.lk.Lock()
		o.held.Store(true)
		all = append(all, o)
		ol := other.NewLocker(o.name)
		c.Go(&wg, "waiting", func() {
			if i%2 == 0 {
				ol.Lock()
			} else {
				for !ol.TryLock(ctx) {
					time.Sleep(20 * time.Millisecond)
				}
			}
			if o.held.Load() && !stalled(ttl/4) {
				c.Fail("lease-lost", "%s: the lock %s is acquired by another provider while it is held", b.name, o.name)
			}
			o.got.Store(true)
			ol.Unlock()
		})
	}
	time.Sleep(ttl*2 + ttl*time.Duration(c.Rng.Intn(40))/100)
	for i, o := range all {
		if !o.got.Load() {
			c.Count("kept", 1)
		}
		c.Eval(1)
		o.held.Store(false)
		o.lk.Unlock()
		c.Distinct("lease", b.name, i)
	}
	c.Count("waited", len(all))
	c.Within(inTime, "stuck", b.name+": the waiters get the released locks", wg.Wait)
}

// cut is the storage which may be unavailable
type cut struct {
	kvs.Storage
	off atomic.Bool
}

var errCut = errors.New("the storage is not available")

func (s *cut) CasByVersion(ctx context.Context, r kvs.Record) (kvs.Record, error) {
	if s.off.Load() {
		return r, errCut
	}
	return s.Storage.CasByVersion(ctx, r)
}

func (s *cut) Put(ctx context.Context, r kvs.Record) (kvs.Record, error) {
	if s.off.Load() {
		return r, errCut
	}
	return s.Storage.Put(ctx, r)
}

func k03Dead(c *fw.Case) {
	b := newBackend(c.Idx, true)
	defer b.close()
	st := &cut{Storage: b.Storage}
	dead := dist.NewKvsLockProvider(st, "locks/")
	defer dead.Shutdown()
	mk := func() dist.LockProvider { return dist.NewKvsLockProvider(b.client(), "locks/") }
	p1, p2 := mk(), mk()
	defer p1.Shutdown()
	defer p2.Shutdown()
	var wg sync.WaitGroup
	var late []func()
	for i := 0; i < 10; i++ {
		name := fmt.Sprintf("n%d", i)
		lk := dead.NewLocker(name)
		lk.Lock()
		var exp atomic.Int64 // when the lease ends
		var taken atomic.Bool
		rel := make(chan struct{})
		taken2 := make(chan struct{})
		c.Go(&wg, "taking over", func() {
			n := p1.NewLocker(name)
			if i%2 == 0 {
				n.Lock()
			} else {
				for !n.TryLock(ctx) {
					time.Sleep(10 * time.Millisecond)
				}
			}
			if e := exp.Load(); (e == 0 || time.Now().UnixNano() < e-int64(b.early())) && !stalled(ttl/4) {
				c.Fail("lease-lost", "%s: the lock %s is taken over before the lease of its holder ends", b.name, name)
			}
			c.Count("taken-over", 1)
			taken.Store(true)
			close(taken2)
			<-rel
			n.Unlock()
		})
		late = append(late, func() {
			if r, err := b.Get(ctx, "locks/"+name); err == nil && r.ExpiresAt != nil {
				exp.Store(r.ExpiresAt.UnixNano())
			} else {
				exp.Store(1)
			}
		}, func() {
			select {
			case <-taken2:
			case <-time.After(ttl + inTime):
				c.Fail("stuck", "%s: the lock %s of a dead holder is not taken over in %v\n%s", b.name, name, ttl+inTime, fw.Stacks())
				close(rel)
				return
			}
			// the former holder is back
			lk.Unlock()
			x := p2.NewLocker(name)
			wctx, cancel := context.WithTimeout(ctx, 50*time.Millisecond)
			defer cancel()
			if i%3 == 0 && x.TryLock(ctx) || i%3 != 0 && x.LockWithCtx(wctx) == nil {
				c.Fail("two-holders", "%s: the lock %s is acquired while another one holds it, after the release by the former holder whose lease is over", b.name, name)
				x.Unlock()
			}
			close(rel)
			c.Eval(1)
			c.Distinct("dead", b.name, name)
		})
	}
	st.off.Store(true)
	for i := 0; i < len(late); i += 2 {
		late[i]()
	}
	time.Sleep(time.Duration(c.Rng.Int63n(int64(ttl))))
	for i := 1; i < len(late); i += 2 {
		if i == 1 {
			// wait with the storage being cut
			late[i]()
			st.off.Store(false)
			continue
		}
		late[i]()
	}
	c.Within(ttl+2*inTime, "stuck", b.name+": all the locks are released", wg.Wait)
}

func k03Shutdown(c *fw.Case) {
	b := newBackend(c.Idx, true)
	defer b.close()
	p := dist.NewKvsLockProvider(b, "locks/")
	lk := p.NewLocker("x")
	lk.Lock()
	var wg sync.WaitGroup
	var refused int64
	n := 1 + c.Rng.Intn(5)
	for i := 0; i < n; i++ {
		c.Go(&wg, "waiting", func() {
			if err := lk.LockWithCtx(ctx); err == nil {
				c.Fail("locked-after-shutdown", "%s: the held lock is acquired", b.name)
			} else if !errors.Is(err, serrors.ErrClosed) {
				c.Fail("wrong-error", "%s: LockWithCtx after the shutdown: %v", b.name, err)
			} else {
				atomic.AddInt64(&refused, 1)
			}
		})
	}
	time.Sleep(time.Duration(c.Rng.Intn(3000)) * time.Microsecond)
	p.Shutdown()
	if !c.Within(inTime, "stuck", b.name+": the waiters are refused after the shutdown", wg.Wait) {
		return
	}
	c.Count("refused", int(refused))
	c.Eval(n)
	c.Distinct("shutdown", b.name, n)
	c.Within(inTime, "stuck", b.name+": using of the lock after the shutdown", func() {
		if lk.TryLock(ctx) || p.NewLocker("y").TryLock(ctx) {
			c.Fail("locked-after-shutdown", "%s: TryLock acquires the lock", b.name)
		}
		if err := p.NewLocker("y").LockWithCtx(ctx); !errors.Is(err, serrors.ErrClosed) {
			c.Fail("wrong-error", "%s: LockWithCtx after the shutdown: %v", b.name, err)
		}
		lk.Unlock()
	})
	// the holder released it, so the others may go
	q := dist.NewKvsLockProvider(b, "locks/")
	defer q.Shutdown()
	if !q.NewLocker("x").TryLock(ctx) {
		c.Fail("not-free", "%s: the lock released after the shutdown can't be acquired", b.name)
	}
	q.NewLocker("y")
}

// slowDel is the storage which is slow to delete
type slowDel struct {
	*cut
	d time.Duration
}

func (s *slowDel) Delete(ctx context.Context, key string) error {
	time.Sleep(s.d)
	return s.Storage.Delete(ctx, key)
}

// k03LateRelease - the lock is released when its lease is almost over
func k03LateRelease(c *fw.Case) {
	b := newBackend(c.Idx, true)
	defer b.close()
	st := &slowDel{&cut{Storage: b.Storage}, ttl / 4}
	first := dist.NewKvsLockProvider(st, "locks/")
	second, third := dist.NewKvsLockProvider(b.client(), "locks/"), dist.NewKvsLockProvider(b.client(), "locks/")
	defer first.Shutdown()
	defer second.Shutdown()
	defer third.Shutdown()
	var wg sync.WaitGroup
	st.off.Store(true) // the leases are not renewed
	end := time.Now().Add(ttl)
	for i := 0; i < 10; i++ {
		name := fmt.Sprintf("n%d", i)
		lk := first.NewLocker(name)
		lk.Lock()
		l := &locks{c: c, holders: map[string]*int32{name: new(int32)}}
		before := time.Duration(c.Rng.Int63n(int64(ttl / 10)))
		c.Go(&wg, "releasing", func() {
			time.Sleep(time.Until(end.Add(-before - ttl/20)))
			st.off.Store(false)
			lk.Unlock()
			c.Count("released-late", 1)
			c.Eval(1)
		})
		for k, p := range []dist.LockProvider{second, third} {
			o := p.NewLocker(name)
			c.Go(&wg, "taking", func() {
				o.Lock()
				l.enter(name, fmt.Sprintf("%s: taker %d", b.name, k))
				time.Sleep(ttl / 3)
				if !stalled(ttl / 4) {
					l.leave(name)
				}
				o.Unlock()
			})
		}
		c.Distinct("late-release", b.name, i, before)
	}
	c.Within(ttl+2*inTime, "stuck", b.name+": the locks are passed on", wg.Wait)
}

// k03Tries - the tries of one locker have nothing in common but the locker
func k03Tries(c *fw.Case) {
	b := newBackend(0, true)
	defer b.close()
	holder, prov := dist.NewKvsLockProvider(b, "locks/"), dist.NewKvsLockProvider(b, "locks/")
	defer holder.Shutdown()
	defer prov.Shutdown()
	h := holder.NewLocker("x")
	h.Lock()
	lk := prov.NewLocker("x")
	cctx, cancel := context.WithCancel(ctx)
	cancel()
	until := time.Now().Add(150 * time.Millisecond)
	var wg sync.WaitGroup
	var n, got int64
	for g := 0; g < 3+c.Rng.Intn(4); g++ {
		c.Go(&wg, "trying", func() {
			for i := 0; i&63 != 0 || time.Now().Before(until); i++ {
				atomic.AddInt64(&n, 1)
				if g > 0 && i&7 == g {
					if err := lk.LockWithCtx(cctx); err == nil {
						atomic.AddInt64(&got, 1)
					}
				} else if lk.TryLock(ctx) {
					atomic.AddInt64(&got, 1)
				}
			}
		})
	}
	if !c.Within(inTime, "stuck", "tries of the lock held by another one", wg.Wait) {
		return
	}
	if got > 0 {
		c.Fail("two-holders", "the lock is acquired %d times while another one holds it", got)
	}
	h.Unlock()
	c.Within(inTime, "not-free", "the lock is free, and the locker which failed to get it may take it", lk.Lock)
	lk.Unlock()
	c.Eval(int(n))
	c.Count("tried", int(n))
	c.Distinct("tries", c.Idx, n > 0)
}
