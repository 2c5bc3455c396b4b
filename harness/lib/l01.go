package lib

import (
	"errors"
	"fmt"
	"math/rand"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/solarisdb/solaris/golibs/container/lru"
	"verif/harness/fw"
)

func init() {
	fw.Register(&fw.Prop{
		ID: "L01",
		Rule: "model: random gets, removals and clearings of a cache one by one against an exact LRU model (hits, creations, evictions and their order, failed creations, also the expirable " +
			"cache and keys of a not comparable type). conc: several clients do that at once with slow creations and failures: one creation of a key at a time, values are of the requested key " +
			"and not older than the last removal before the request, the size limit holds, every created value is either kept or handed over to the deletion callback exactly once. " +
			"Non-trivial: hits, evictions and removals happen; distinct by the limit, outcomes and the final content",
		MinEvents: []string{"hits", "created", "evicted", "removed", "failed", "shared", "refreshed", "concurrent"},
		Scens: []fw.Scenario{
			{Name: "model", Quick: 600, Thorough: 40000, Run: l01Model},
			{Name: "conc", Quick: 160, Thorough: 6000, Run: l01Conc},
			{Name: "expirable", Quick: 100, Thorough: 2000, Run: l01Expirable},
		},
	})
}

var errCreate = errors.New("creation fails")

// item is a cached value
type item struct {
	key     string
	seq     int
	deleted atomic.Int32
}

func l01Model(c *fw.Case) {
	max := 1 + c.Rng.Intn(5)
	var created, deleted []*item
	fail := false
	seq := 0
	create := func(k []string) (*item, error) {
		if fail {
			return nil, errCreate
		}
		seq++
		it := &item{key: strings.Join(k, "/"), seq: seq}
		created = append(created, it)
		return it, nil
	}
	del := func(k []string, it *item) {
		if strings.Join(k, "/") != it.key {
			c.Fatal("wrong-key", "the value of %q is deleted with the key %q", it.key, k)
		}
		deleted = append(deleted, it)
	}
	if c.Rng.Intn(10) == 0 {
		del = nil
	}
	cache, err := lru.NewECache[[]string, string, *item](max, func(k []string) string { return strings.Join(k, "/") }, create, del)
	fw.Must(err)
	var order []*item // the reference: the least recently used first
	keys := [][]string{{"a"}, {"b"}, {"a", "b"}, {"c"}, {"d"}, {"e", "f", "g"}, {"h"}}[:3+c.Rng.Intn(5)]
	var hits, evicted, removed int
	for i := 0; i < 60; i++ {
		k := slices.Clone(keys[c.Rng.Intn(len(keys))])
		ks := strings.Join(k, "/")
		pos := slices.IndexFunc(order, func(it *item) bool { return it.key == ks })
		created, deleted = nil, nil
		var wantDel []*item
		c.Eval(1)
		switch op := c.Rng.Intn(20); {
		case op < 15:
			fail = c.Rng.Intn(6) == 0
			v, err := cache.GetOrCreate(k)
			switch {
			case pos >= 0:
				if err != nil || v != order[pos] || len(created) != 0 {
					c.Fatal("not-cached", "get of the cached %q: %+v, %v, created %d", ks, v, err, len(created))
				}
				order = append(slices.Delete(order, pos, pos+1), v)
				hits++
			case fail:
				if !errors.Is(err, errCreate) {
					c.Fatal("wrong-error", "get of %q, its creation fails: %v", ks, err)
				}
				c.Count("failed", 1)
			default:
				if err != nil || len(created) != 1 || v != created[0] || v.key != ks {
					c.Fatal("not-created", "get of the missing %q: %+v, %v, created %d", ks, v, err, len(created))
				}
				order = append(order, v)
				if len(order) > max {
					wantDel = order[:1]
					order = order[1:]
					evicted++
				}
			}
		case op < 19:
			ok := cache.Remove(k)
			if ok != (pos >= 0) {
				c.Fatal("remove", "removal of %q returns %t", ks, ok)
			}
			if ok {
				wantDel = []*item{order[pos]}
				order = slices.Delete(slices.Clone(order), pos, pos+1)
				removed++
			}
		default:
			if n := cache.Clear(); n != len(order) {
				c.Fatal("clear", "clearing of %d values returns %d", len(order), n)
			}
			wantDel, order = order, nil
		}
		if del != nil && !slices.Equal(deleted, wantDel) {
			c.Fatal("deleted", "step %d, key %q: the deleted values are %v, expected %v", i, ks, seqs(deleted), seqs(wantDel))
		}
	}
	c.Count("hits", hits)
	c.Count("created", seq)
	c.Count("evicted", evicted)
	c.Count("removed", removed)
	c.Distinct(max, hits, evicted, removed, fmt.Sprint(seqs(order)))
}

func seqs(is []*item) (r []string) {
	for _, it := range is {
		r = append(r, fmt.Sprintf("%s#%d", it.key, it.seq))
	}
	return
}

func l01Conc(c *fw.Case) {
	max := 1 + c.Rng.Intn(4)
	keys := []string{"a", "b", "c", "d", "e", "f"}[:1+c.Rng.Intn(6)]
	type state struct {
		creating atomic.Int32
		removed  atomic.Int64 // the start of the last finished removal
	}
	st := map[string]*state{}
	for _, k := range keys {
		st[k] = &state{}
	}
	var clock atomic.Int64
	var lock sync.Mutex
	var all []*item
	slow := time.Duration(c.Rng.Intn(300)) * time.Microsecond
	withRemove := c.Rng.Intn(3) > 0
	failing := c.Rng.Intn(2) == 0
	rng := newRng(c)
	var live, shared, failed, hits atomic.Int64
	create := func(k string) (*item, error) {
		if n := st[k].creating.Add(1); n != 1 && !withRemove {
			c.Fail("double-creation", "%d simultaneous creations of %q", n, k)
		}
		defer st[k].creating.Add(-1)
		lock.Lock()
		d, f := time.Duration(rng.Int63n(int64(slow)+1)), failing && rng.Intn(4) == 0
		lock.Unlock()
		t := int(clock.Add(1))
		time.Sleep(d)
		if f {
			failed.Add(1)
			return nil, errCreate
		}
		it := &item{key: k, seq: t}
		lock.Lock()
		all = append(all, it)
		lock.Unlock()
		live.Add(1)
		return it, nil
	}
	del := func(k string, it *item) {
		if k != it.key {
			c.Fail("wrong-key", "the value of %q is deleted with the key %q", it.key, k)
		}
		if it.deleted.Add(1) != 1 {
			c.Fail("deleted-twice", "the value of %q is deleted twice", k)
		}
		live.Add(-1)
	}
	cache, err := lru.NewCache[string, *item](max, create, del)
	fw.Must(err)
	var wg sync.WaitGroup
	seen := map[*item]int{}
	for w := 0; w < 2+c.Rng.Intn(6); w++ {
		rng := newRng(c)
		c.Go(&wg, "cache client", func() {
			for i := 0; i < 60; i++ {
				k := keys[rng.Intn(len(keys))]
				if withRemove && rng.Intn(8) == 0 {
					// the values whose creation starts before the removal are obsolete after it
					t := clock.Add(1)
					if rng.Intn(10) == 0 {
						cache.Clear()
						for _, s := range st {
							raise(&s.removed, t)
						}
						continue
					}
					cache.Remove(k)
					raise(&st[k].removed, t)
					continue
				}
				after := st[k].removed.Load()
				v, err := cache.GetOrCreate(k)
				if err != nil {
					if !errors.Is(err, errCreate) {
						c.Fail("wrong-error", "get: %v", err)
					}
					continue
				}
				if v.key != k {
					c.Fail("foreign-value", "get of %q returns the value of %q", k, v.key)
				}
				if int64(v.seq) < after {
					c.Fail("stale", "get of %q which starts after its removal at %d ends returns the value created at %d", k, after, v.seq)
				}
				lock.Lock()
				if seen[v]++; seen[v] > 1 {
					hits.Add(1)
					shared.Add(1)
				}
				lock.Unlock()
			}
		})
	}
	if !c.Within(60*time.Second, "stuck", "clients of the cache", wg.Wait) {
		return
	}
	c.Eval(len(all))
	c.Count("concurrent", 1)
	c.Count("shared", int(shared.Load()))
	c.Count("failed", int(failed.Load()))
	if n := live.Load(); n > int64(max) {
		c.Fail("over-limit", "%d values are alive in the cache of %d", n, max)
	}
	n := cache.Clear()
	for _, it := range all {
		if it.deleted.Load() != 1 {
			c.Fail("leaked", "a value of %q is created, but deleted %d times after the cache is cleared", it.key, it.deleted.Load())
		}
	}
	c.Distinct("conc", max, n, len(all), hits.Load())
}

func raise(a *atomic.Int64, v int64) {
	for {
		o := a.Load()
		if o >= v || a.CompareAndSwap(o, v) {
			return
		}
	}
}

func l01Expirable(c *fw.Case) {
	type val = lru.ExpirableItem[int]
	var seq atomic.Int64
	var lock sync.Mutex
	ttls := func(rng *rand.Rand) time.Duration { return time.Duration(rng.Intn(6)) * time.Millisecond }
	crng := newRng(c)
	born := map[int]time.Time{} // seq -> expires
	cache, err := lru.NewExpirableCache[string, val](1+c.Rng.Intn(3), func(k string) (val, error) {
		lock.Lock()
		defer lock.Unlock()
		n := int(seq.Add(1))
		born[n] = time.Now().Add(time.Millisecond + ttls(crng))
		return lru.NewCacheItem(n, born[n]), nil
	}, nil)
	fw.Must(err)
	var wg sync.WaitGroup
	var refreshed atomic.Int64
	for w := 0; w < 1+c.Idx%4; w++ {
		rng := newRng(c)
		c.Go(&wg, "expirable cache client", func() {
			last := map[string]int{}
			for i := 0; i < 25; i++ {
				k := string(rune('a' + rng.Intn(3)))
				before := seq.Load()
				now := time.Now()
				v, err := cache.GetOrCreate(k)
				if err != nil {
					c.Fail("wrong-error", "get: %v", err)
					return
				}
				// a value which was expired when the request came and created before it must not be returned
				if v.ExpiresAt.Before(now) && int64(v.Value) <= before {
					c.Fail("expired-value", "get of %q returns the value expired %v before the request", k, now.Sub(v.ExpiresAt))
				}
				if v.Value != last[k] {
					refreshed.Add(1)
				}
				last[k] = v.Value
				time.Sleep(time.Duration(rng.Intn(1500)) * time.Microsecond)
			}
		})
	}
	c.Within(60*time.Second, "stuck", "clients of the expirable cache", wg.Wait)
	c.Eval(25)
	c.Count("refreshed", int(refreshed.Load()))
	c.Distinct("exp", seq.Load(), refreshed.Load())
}
