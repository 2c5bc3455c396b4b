package lib

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"sync/atomic"
	"time"

	serrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/kvs"
	"verif/harness/fw"
)

const inTime = 10 * time.Second

type kwaiter struct {
	key, what string
	done      atomic.Bool
	got       string
	cancel    func()
	quit      chan struct{}
}

func waitName(err error) string {
	switch {
	case err == nil:
		return "changed"
	case errors.Is(err, serrors.ErrNotExist):
		return "deleted"
	case errors.Is(err, context.Canceled):
		return "cancelled"
	case errors.Is(err, context.DeadlineExceeded):
		return "deadline"
	}
	return "error: " + err.Error()
}

func k02Wait(c *fw.Case) {
	b := newBackend(c.Idx, true)
	defer b.close()
	keys := []string{"a", "b", "a/b", "c"}[:2+c.Rng.Intn(3)]
	kind := map[string]string{}
	vers := map[string]string{}
	exp := map[string]time.Time{}
	evs := []string{"put", "cas", "putmany", "delete", "expire", "recreate", "nothing", "nothing", "put-expiring", "prolong"}
	for _, k := range keys {
		kind[k] = evs[c.Rng.Intn(len(evs))]
		r := kvs.Record{Key: k, Value: []byte("v")}
		switch kind[k] {
		case "expire":
			t := time.Now().Add(time.Duration(100+c.Rng.Intn(200)) * time.Millisecond)
			exp[k] = t
			r.ExpiresAt = &t
		case "put-expiring", "prolong":
			t := time.Now().Add(time.Hour)
			r.ExpiresAt = &t
		}
		v, err := b.Create(ctx, r)
		fw.Must(err)
		vers[k] = v
	}
	// the outcomes which need no waiting
	if got := waitName(b.WaitForVersionChange(ctx, "absent", "x")); got != "deleted" {
		c.Fail("wait-absent", "%s: waiting for a missing key ends with %q", b.name, got)
	}
	if got := waitName(b.WaitForVersionChange(ctx, keys[0], "another")); got != "changed" {
		c.Fail("wait-another", "%s: waiting with another version ends with %q", b.name, got)
	}
	var ws []*kwaiter
	for i := 2 + c.Rng.Intn(8); i > 0; i-- {
		w := &kwaiter{key: keys[c.Rng.Intn(len(keys))], what: "event", quit: make(chan struct{})}
		wctx, cancel := context.WithCancel(ctx)
		switch c.Rng.Intn(6) {
		case 0:
			w.what = "cancelled"
		case 1:
			w.what = "deadline"
			wctx, _ = context.WithTimeout(wctx, time.Duration(30+c.Rng.Intn(50))*time.Millisecond)
		}
		w.cancel = cancel
		ws = append(ws, w)
		go func() {
			defer close(w.quit)
			defer c.Recover("WaitForVersionChange")
			w.got = waitName(b.WaitForVersionChange(wctx, w.key, vers[w.key]))
			w.done.Store(true)
		}()
	}
	defer func() {
		for _, w := range ws {
			w.cancel()
		}
	}()
	must := func(w *kwaiter, want ...string) {
		c.Eval(1)
		select {
		case <-w.quit:
		case <-time.After(inTime):
			c.Fatal("not-woken", "%s: the waiter for %q is still blocked, though %s happened\n%s", b.name, w.key, kind[w.key]+"/"+w.what, fw.Stacks())
		}
		for _, x := range want {
			if w.got == x {
				c.Count(w.got, 1)
				c.Distinct(b.name, kind[w.key], w.what, w.got, len(ws))
				return
			}
		}
		c.Fatal("wrong-outcome", "%s: the waiter for %q ends with %q, expected %q, after %s", b.name, w.key, w.got, want, kind[w.key]+"/"+w.what)
	}
	// nothing happens: all are blocked
	time.Sleep(15 * time.Millisecond)
	for _, w := range ws {
		if w.what == "event" && (exp[w.key].IsZero() || time.Now().Before(exp[w.key])) && w.done.Load() && (exp[w.key].IsZero() || time.Now().Before(exp[w.key])) {
			c.Fatal("woken-early", "%s: the waiter for %q ends with %q though nothing happened", b.name, w.key, w.got)
		}
		c.Count("not-woken", 1)
	}
	for _, w := range ws {
		switch w.what {
		case "cancelled":
			w.cancel()
			if kind[w.key] == "expire" {
				must(w, "cancelled", "deleted")
			} else {
				must(w, "cancelled")
			}
		case "deadline":
			if kind[w.key] == "expire" {
				must(w, "deadline", "deleted")
			} else {
				must(w, "deadline")
			}
		}
	}
	for _, k := range keys {
		var err error
		r := kvs.Record{Key: k, Value: []byte("w"), Version: vers[k]}
		want := []string{"changed"}
		switch kind[k] {
		case "put":
			_, err = b.Put(ctx, r)
		case "cas":
			_, err = b.CasByVersion(ctx, r)
		case "putmany":
			err = b.PutMany(ctx, []kvs.Record{r})
		case "delete":
			err = b.Delete(ctx, k)
			want = []string{"deleted"}
		case "expire":
			want = []string{"deleted"}
			c.Count("expired", 1)
		case "recreate":
			if err = b.Delete(ctx, k); err == nil {
				_, err = b.Create(ctx, r)
			}
			want = []string{"deleted", "changed"}
		case "put-expiring":
			t := time.Now().Add(time.Second)
			r.ExpiresAt = &t
			_, err = b.Put(ctx, r)
		case "prolong":
			t := time.Now().Add(2 * time.Hour)
			r.ExpiresAt = &t
			_, err = b.CasByVersion(ctx, r)
		case "nothing":
			continue
		}
		if err != nil {
			c.Fatal("event-failed", "%s: %s of %q: %v", b.name, kind[k], k, err)
		}
		for _, w := range ws {
			if w.key == k && w.what == "event" {
				must(w, want...)
				if kind[k] == "expire" && time.Now().Before(exp[k].Add(-b.early())) {
					c.Fatal("expired-early", "%s: the waiter for %q is told it expired %v before that", b.name, k, time.Until(exp[k]))
				}
			}
		}
	}
	for _, w := range ws {
		if kind[w.key] == "nothing" && w.what == "event" {
			if w.done.Load() {
				c.Fatal("woken-early", "%s: the waiter for %q ends with %q though nothing happened", b.name, w.key, w.got)
			}
			w.cancel()
			must(w, "cancelled")
		}
	}
	c.Sample("%s: %v, %d waiters", b.name, kind, len(ws))
}

func k02Storm(c *fw.Case) {
	b := newBackend(c.Idx, true)
	defer b.close()
	keys := []string{"a", "b"}[:1+c.Rng.Intn(2)]
	for _, k := range keys {
		_, err := b.Put(ctx, kvs.Record{Key: k, Value: []byte("0")})
		fw.Must(err)
	}
	var ws, fs sync.WaitGroup
	var stop atomic.Bool
	writers := 1 + c.Rng.Intn(3)
	n := 20 + c.Rng.Intn(60)
	for i := 0; i < writers; i++ {
		rng := newRng(c)
		st := b.client()
		c.Go(&ws, "writer", func() {
			if cl, ok := st.(io.Closer); ok {
				defer cl.Close()
			}
			for j := 0; j < n; j++ {
				k := keys[rng.Intn(len(keys))]
				r := kvs.Record{Key: k, Value: []byte(fmt.Sprint(rng.Intn(1000)))}
				switch rng.Intn(5) {
				case 0:
					st.Delete(ctx, k)
				case 1:
					st.Create(ctx, r)
				case 2:
					if x, err := st.Get(ctx, k); err == nil {
						r.Version = x.Version
						st.CasByVersion(ctx, r)
					}
				default:
					st.Put(ctx, r)
				}
				if rng.Intn(3) == 0 {
					time.Sleep(time.Duration(rng.Intn(300)) * time.Microsecond)
				}
			}
		})
	}
	var followed, cancelled int64
	for i := 0; i < 2+c.Rng.Intn(5); i++ {
		k := keys[i%len(keys)]
		impatient := c.Rng.Intn(3) == 0
		rng := newRng(c)
		st := b.client()
		c.Go(&fs, "watcher", func() {
			if cl, ok := st.(io.Closer); ok {
				defer cl.Close()
			}
			for {
				r, err := st.Get(ctx, k)
				if err != nil {
					if !errors.Is(err, serrors.ErrNotExist) {
						c.Fatal("wrong-error", "%s: get: %v", b.name, err)
					}
					time.Sleep(50 * time.Microsecond)
					continue
				}
				if string(r.Value) == "last" {
					return
				}
				wctx, cancel := ctx, func() {}
				if impatient {
					wctx, cancel = context.WithTimeout(ctx, time.Duration(rng.Intn(2000))*time.Microsecond)
				}
				err = st.WaitForVersionChange(wctx, k, r.Version)
				cancel()
				switch waitName(err) {
				case "changed", "deleted":
					atomic.AddInt64(&followed, 1)
				case "deadline":
					atomic.AddInt64(&cancelled, 1)
					if !impatient {
						c.Fatal("wrong-outcome", "%s: %v without a deadline", b.name, err)
					}
				default:
					c.Fatal("wrong-outcome", "%s: waiting ends with %v", b.name, err)
				}
			}
		})
	}
	ws.Wait()
	for _, k := range keys {
		_, err := b.Put(ctx, kvs.Record{Key: k, Value: []byte("last")})
		fw.Must(err)
	}
	stop.Store(true)
	c.Within(inTime, "not-woken", b.name+": watchers follow the changes to the last one", fs.Wait)
	c.Eval(int(followed))
	c.Count("followed", int(followed))
	c.Distinct("storm", b.name, followed, cancelled)
}

// k02Brink - the record is prolonged right before it expires, so it exists all the time
func k02Brink(c *fw.Case) {
	b := newBackend(c.Idx, true)
	defer b.close()
	n := 40
	if b.name == "inmem" {
		n = 400
	}
	for round := 0; round < 3; round++ {
		key := fmt.Sprint("k", round)
		exp := time.Now().Add(60 * time.Millisecond)
		ver, err := b.Create(ctx, kvs.Record{Key: key, Value: []byte("v"), ExpiresAt: &exp})
		fw.Must(err)
		var wg sync.WaitGroup
		got := make([]string, n)
		for i := range got {
			c.Go(&wg, "waiting", func() { got[i] = waitName(b.WaitForVersionChange(ctx, key, ver)) })
		}
		time.Sleep(time.Until(exp.Add(-time.Duration(c.Rng.Intn(4000)) * time.Microsecond)))
		hour := time.Now().Add(time.Hour)
		_, err = b.CasByVersion(ctx, kvs.Record{Key: key, Value: []byte("w"), Version: ver, ExpiresAt: &hour})
		if !c.Within(inTime, "not-woken", b.name+": the waiters for the record prolonged at the brink", wg.Wait) {
			return
		}
		if err != nil {
			c.Count("too-late", 1)
			continue
		}
		for _, g := range got {
			if g != "changed" {
				c.Fatal("wrong-outcome", "%s: the record is prolonged in time, so it has been existing all the time, but a waiter is told %q", b.name, g)
			}
		}
		c.Eval(n)
		c.Count("prolonged", n)
		c.Distinct("brink", b.name, n)
	}
}
