package lib

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"sync"
	"sync/atomic"
	"time"

	"github.com/solarisdb/solaris/golibs/container/lru"
	serrors "github.com/solarisdb/solaris/golibs/errors"
	"verif/harness/fw"
)

func init() {
	fw.Register(&fw.Prop{
		ID: "L02",
		Rule: "model: borrowing, releasing and closing one by one against a model with reference counters and the LRU order of the free objects (also when nothing is free: only the deadline ends the " +
			"wait). conc: clients borrow (with deadlines), hold and release objects of more keys than the limit, creations are slow or fail, then everything is closed at a random " +
			"moment: never more objects alive than the limit, no object is deleted while it is held, one object per key, waiters go on as soon as there is a place, every object is " +
			"deleted exactly once. Non-trivial: clients wait for a place; distinct by the limit, keys and the outcomes",
		Assumptions: []string{"every borrowed object is released, once"},
		MinEvents:   []string{"borrowed", "waited", "evicted", "deadline", "failed", "closed", "model-steps"},
		Scens: []fw.Scenario{
			{Name: "model", Quick: 200, Thorough: 10000, Run: l02Model},
			{Name: "conc", Quick: 240, Thorough: 8000, Run: l02Conc},
		},
	})
}

func l02Model(c *fw.Case) {
	max := 1 + c.Rng.Intn(4)
	keys := []string{"a", "b", "c", "d", "e", "f"}[:max+1+c.Rng.Intn(2)]
	fail := false
	var created, deleted []*item
	seq := 0
	cache, err := lru.NewReleasableCache[string, *item](max, func(_ context.Context, k string) (*item, error) {
		if fail {
			return nil, errCreate
		}
		seq++
		it := &item{key: k, seq: seq}
		created = append(created, it)
		return it, nil
	}, func(k string, it *item) {
		if k != it.key {
			c.Fatal("wrong-key", "the object of %q is deleted with the key %q", it.key, k)
		}
		deleted = append(deleted, it)
	})
	fw.Must(err)
	type obj struct {
		it   *item
		held []lru.Releasable[*item]
	}
	objs := map[string]*obj{}
	var free []string // the least recently released first
	closed := false
	for i := 0; i < 40; i++ {
		created, deleted = nil, nil
		var may []*item // what may be deleted
		must := 0
		op := c.Rng.Intn(20)
		if closed && op < 10 && c.Rng.Intn(3) > 0 {
			op = 12
		}
		c.Count("model-steps", 1)
		c.Eval(1)
		switch {
		case op < 10:
			k := keys[c.Rng.Intn(len(keys))]
			fail = c.Rng.Intn(8) == 0
			o := objs[k]
			block := !closed && o == nil && len(objs) >= max && len(free) == 0
			wctx, cancel := ctx, func() {}
			if block {
				wctx, cancel = context.WithTimeout(ctx, time.Millisecond)
			}
			h, err := cache.GetOrCreate(wctx, k)
			cancel()
			switch {
			case closed:
				if !errors.Is(err, serrors.ErrClosed) {
					c.Fatal("wrong-error", "borrowing from the closed cache: %v", err)
				}
			case o != nil:
				if err != nil || h.Value() != o.it || len(created) > 0 {
					c.Fatal("not-cached", "borrowing of the known %q: %v", k, err)
				}
				if len(o.held) == 0 {
					free = slices.DeleteFunc(free, func(s string) bool { return s == k })
				}
				o.held = append(o.held, h)
			case block:
				if !errors.Is(err, context.DeadlineExceeded) {
					c.Fatal("over-limit", "borrowing of %q when %d of %d are held: %v", k, len(objs), max, err)
				}
				c.Count("deadline", 1)
			default:
				if len(objs) >= max {
					must = 1
				}
				for _, f := range free {
					may = append(may, objs[f].it)
				}
				if fail {
					if !errors.Is(err, errCreate) {
						c.Fatal("wrong-error", "borrowing of %q, its creation fails: %v", k, err)
					}
					c.Count("failed", 1)
				} else {
					if err != nil || len(created) != 1 || h.Value() != created[0] || h.Value().key != k {
						c.Fatal("not-created", "borrowing of the missing %q: %v", k, err)
					}
					objs[k] = &obj{it: h.Value(), held: []lru.Releasable[*item]{h}}
				}
			}
		case op < 19:
			var held []string
			for k, o := range objs {
				if len(o.held) > 0 {
					held = append(held, k)
				}
			}
			if len(held) == 0 {
				continue
			}
			slices.Sort(held)
			k := held[c.Rng.Intn(len(held))]
			o := objs[k]
			h := o.held[len(o.held)-1]
			o.held = o.held[:len(o.held)-1]
			if h.Value() != o.it {
				c.Fatal("value-changed", "the held object of %q is changed", k)
			}
			cache.Release(&h)
			if len(o.held) == 0 {
				if closed {
					must = 1
					may = []*item{o.it}
				} else {
					free = append(free, k)
					for _, f := range free {
						may = append(may, objs[f].it)
					}
				}
			}
		default:
			if closed || c.Rng.Intn(3) > 0 {
				continue
			}
			for _, f := range free {
				may = append(may, objs[f].it)
			}
			must = len(free)
			if err := cache.Close(); err != nil {
				c.Fatal("wrong-error", "close: %v", err)
			}
			if err := cache.Close(); !errors.Is(err, serrors.ErrClosed) {
				c.Fatal("wrong-error", "the second close: %v", err)
			}
			closed = true
			c.Count("closed", 1)
		}
		// the free ones are deleted in the LRU order
		if len(deleted) < must || len(deleted) > len(may) || !slices.Equal(deleted, may[:len(deleted)]) {
			c.Fatal("deleted", "step %d: the deleted objects are %v, expected at least %d of %v", i, seqs(deleted), must, seqs(may))
		}
		for _, it := range deleted {
			delete(objs, it.key)
			free = slices.DeleteFunc(free, func(s string) bool { return s == it.key })
			c.Count("evicted", 1)
		}
		if !closed && len(objs) > max {
			c.Fatal("over-limit", "%d objects of %d", len(objs), max)
		}
		for k, o := range objs {
			for _, h := range o.held {
				if h.Value() != o.it {
					c.Fatal("value-changed", "the held object of %q is changed", k)
				}
			}
		}
	}
	c.Distinct("model", max, len(keys), seq, closed, len(objs))
}

func l02Conc(c *fw.Case) {
	max := 1 + c.Rng.Intn(4)
	nk := 1 + c.Rng.Intn(max+3)
	slow := time.Duration(c.Rng.Intn(300)) * time.Microsecond
	hold := time.Duration(c.Rng.Intn(300)) * time.Microsecond
	failing := c.Rng.Intn(3) == 0
	// nobody gives up: everybody must get the object in the end
	patient := c.Rng.Intn(2) == 0
	closing := c.Rng.Intn(3) == 0
	type keySt struct{ creating, live, held atomic.Int32 }
	st := make([]*keySt, nk)
	for i := range st {
		st[i] = &keySt{}
	}
	var lock sync.Mutex
	crng := newRng(c)
	var all []*item
	var live, peak atomic.Int32
	var failed, evicted, borrowed, deadlines, refused, waited atomic.Int64
	cache, err := lru.NewReleasableCache[int, *item](max, func(cx context.Context, k int) (*item, error) {
		if n := live.Add(1); int(n) > max {
			c.Fail("over-limit", "%d objects are alive or being created, the limit is %d", n, max)
		}
		if st[k].creating.Add(1) != 1 {
			c.Fail("double-creation", "simultaneous creations of the object %d", k)
		}
		defer st[k].creating.Add(-1)
		lock.Lock()
		d, f := time.Duration(crng.Int63n(int64(slow)+1)), failing && crng.Intn(3) == 0
		lock.Unlock()
		time.Sleep(d)
		if f {
			failed.Add(1)
			live.Add(-1)
			return nil, errCreate
		}
		if n := st[k].live.Add(1); n != 1 {
			c.Fail("double-creation", "%d objects of the key %d are alive", n, k)
		}
		it := &item{key: fmt.Sprint(k), seq: k}
		lock.Lock()
		all = append(all, it)
		lock.Unlock()
		return it, nil
	}, func(k int, it *item) {
		if it.deleted.Add(1) != 1 {
			c.Fail("deleted-twice", "the object %d is deleted twice", k)
		}
		if st[k].held.Load() != 0 || k != it.seq {
			c.Fail("deleted-held", "the object %d is deleted while it is held", k)
		}
		evicted.Add(1)
		st[k].live.Add(-1)
		live.Add(-1)
	})
	fw.Must(err)
	var wg sync.WaitGroup
	for w := 0; w < 2+c.Rng.Intn(8); w++ {
		rng := newRng(c)
		c.Go(&wg, "borrower", func() {
			for i := 0; i < 40; i++ {
				k := rng.Intn(nk)
				wctx, cancel := ctx, func() {}
				if !patient && rng.Intn(2) == 0 {
					wctx, cancel = context.WithTimeout(ctx, time.Duration(rng.Intn(600))*time.Microsecond)
				}
				t := time.Now()
				h, err := cache.GetOrCreate(wctx, k)
				if time.Since(t) > slow+200*time.Microsecond {
					waited.Add(1)
				}
				derr := wctx.Err()
				cancel()
				if err != nil {
					switch {
					case errors.Is(err, errCreate) && failing:
					case errors.Is(err, context.DeadlineExceeded) && derr != nil:
						deadlines.Add(1)
					case errors.Is(err, serrors.ErrClosed) && closing:
						refused.Add(1)
						return
					default:
						c.Fail("wrong-error", "borrowing: %v", err)
					}
					continue
				}
				st[k].held.Add(1)
				it := h.Value()
				if it.seq != k {
					c.Fail("foreign-object", "borrowing of %d gives the object %d", k, it.seq)
				}
				borrowed.Add(1)
				if rng.Intn(3) > 0 {
					time.Sleep(time.Duration(rng.Int63n(int64(hold) + 1)))
				}
				if it.deleted.Load() != 0 {
					c.Fail("deleted-held", "the held object %d is deleted", k)
				}
				st[k].held.Add(-1)
				cache.Release(&h)
			}
		})
	}
	if closing {
		time.Sleep(time.Duration(c.Rng.Intn(5000)) * time.Microsecond)
		if err := cache.Close(); err != nil {
			c.Fail("wrong-error", "close: %v", err)
		}
		c.Count("closed", 1)
	}
	if !c.Within(60*time.Second, "stuck", "borrowers", wg.Wait) {
		return
	}
	if !closing {
		cache.Close()
	}
	for _, it := range all {
		if it.deleted.Load() != 1 {
			c.Fail("leaked", "an object is created, but deleted %d times after all are released and the cache is closed", it.deleted.Load())
		}
	}
	if n := live.Load(); n != 0 {
		c.Fail("leaked", "%d objects are alive at the end", n)
	}
	_ = peak.Load()
	c.Eval(int(borrowed.Load()))
	for n, v := range map[string]int64{"borrowed": borrowed.Load(), "deadline": deadlines.Load(), "failed": failed.Load(), "evicted": evicted.Load(), "refused": refused.Load(), "waited": waited.Load()} {
		c.Count(n, int(v))
	}
	c.Distinct("conc", max, nk, borrowed.Load(), evicted.Load(), deadlines.Load())
}
