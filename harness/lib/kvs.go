// Package lib contains the monitors of the library properties: key-value storage,
// locks, containers, codecs and so on
package lib

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/anishathalye/porcupine"
	rds "github.com/go-redis/redis/v8"
	serrors "github.com/solarisdb/solaris/golibs/errors"
	"github.com/solarisdb/solaris/golibs/kvs"
	"github.com/solarisdb/solaris/golibs/kvs/inmem"
	"github.com/solarisdb/solaris/golibs/kvs/redis"
	"verif/harness/fw"
)

func init() {
	log.SetOutput(io.Discard)
	fw.Register(&fw.Prop{
		ID: "K01",
		Rule: "conc: several clients run random create/get/put/cas/delete operations (put-many and get-many as well) over a few keys of the in-memory and of the redis storage; every " +
			"key's history must be linearizable with respect to a versioned register, no version is given twice. seq: the same operations one by one against a model, with the " +
			"expiration times and listing of keys by patterns; all the passed and returned buffers are scribbled. Non-trivial: operations of different clients overlap; distinct by " +
			"the backend and the sequence of outcomes of a key",
		Assumptions: []string{"the redis server is a miniredis in the same process, its clock is moved by the harness", "keys don't start with a slash (the redis storage drops it)"},
		MinEvents:   []string{"histories", "overlapped", "conflicts", "exists", "expired", "listed"},
		Scens: []fw.Scenario{
			{Name: "conc", Quick: 400, Thorough: 12000, Run: k01Conc},
			{Name: "seq", Quick: 160, Thorough: 4000, Run: k01Seq},
		},
	})
	fw.Register(&fw.Prop{
		ID: "K02",
		Rule: "wait: waiters for a version change of several keys are started, then a random event happens: put, cas, delete, expiration, cancellation or deadline of the context, a change of " +
			"another key, nothing; every waiter must return the outcome of its event in time, and must not return before it. storm: concurrent writers change the keys " +
			"while watchers follow every version; all of them must see the last one. brink: many waiters for a record which is prolonged right before it expires are told it is changed. Non-trivial: the waiter was blocked when the event happened; distinct by the backend, events and outcomes",
		Assumptions: []string{"in time is 10 seconds"},
		MinEvents:   []string{"changed", "deleted", "expired", "cancelled", "followed", "not-woken", "prolonged"},
		Scens: []fw.Scenario{
			{Name: "wait", Quick: 160, Thorough: 3000, Run: k02Wait},
			{Name: "storm", Quick: 80, Thorough: 1600, Run: k02Storm},
			{Name: "brink", Quick: 40, Thorough: 800, Run: k02Brink},
		},
	})
}

var ctx = context.Background()

func pick[T any](c *fw.Case, vs ...T) T { return vs[c.Rng.Intn(len(vs))] }

// backend is a storage under test
type backend struct {
	kvs.Storage
	name string
	mr   *miniredis.Miniredis
	lock sync.Mutex
	last time.Time
	lag  time.Duration
	stop chan struct{}
}

// newBackend makes the storage. auto - the redis clock goes by itself
func newBackend(idx int, auto bool) *backend {
	b := &backend{name: "inmem", last: time.Now(), stop: make(chan struct{})}
	if idx%2 == 0 {
		b.Storage = inmem.New()
		return b
	}
	b.name = "redis"
	var err error
	b.mr, err = miniredis.Run()
	fw.Must(err)
	b.Storage = b.client()
	if auto {
		go func() {
			for {
				select {
				case <-b.stop:
					return
				case <-time.After(time.Millisecond):
					b.tick()
				}
			}
		}()
	}
	return b
}

// client is one more connection to the same storage
func (b *backend) client() kvs.Storage {
	if b.mr == nil {
		return b.Storage
	}
	return redis.New(&rds.Options{Addr: b.mr.Addr()})
}

// tick moves the redis clock
func (b *backend) tick() {
	if b.mr == nil {
		return
	}
	b.lock.Lock()
	defer b.lock.Unlock()
	n := time.Now()
	if d := n.Sub(b.last).Truncate(time.Millisecond); d > 0 {
		b.mr.FastForward(d)
		b.last = b.last.Add(d)
		b.lag = max(b.lag, d)
	}
}

// early is how much earlier a record may expire: the expiration is counted from the
// last movement of the redis clock, and its precision is a millisecond
func (b *backend) early() time.Duration {
	b.lock.Lock()
	defer b.lock.Unlock()
	return b.lag + 2*time.Millisecond
}

func (b *backend) close() {
	close(b.stop)
	if b.mr != nil {
		b.Storage.(io.Closer).Close()
		b.mr.Close()
	}
}

const (
	opCreate = iota
	opGet
	opPut
	opCas
	opDel
	opPutMany
	opGetMany
	opCount
)

var opNames = []string{"create", "get", "put", "cas", "delete", "putmany", "getmany"}

type (
	kin struct {
		op       int
		val, ver string
	}
	kout struct {
		err      string // "", "exist", "notexist", "conflict"
		val, ver string
		rver     string // the version put by the change
	}
	kst struct {
		live     bool
		val, ver string // ver is "?" if not known
	}
)

func errName(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, serrors.ErrExist):
		return "exist"
	case errors.Is(err, serrors.ErrNotExist):
		return "notexist"
	case errors.Is(err, serrors.ErrConflict):
		return "conflict"
	}
	return "other: " + err.Error()
}

func (s kst) same(ver string) bool { return s.ver == "?" || ver == s.ver }

func kstep(s kst, i kin, o kout) (bool, kst) {
	switch i.op {
	case opCreate:
		if s.live {
			return o.err == "exist" && s.same(o.rver), kst{true, s.val, o.rver}
		}
		return o.err == "", kst{true, i.val, o.rver}
	case opGet, opGetMany:
		if !s.live {
			return o.err == "notexist", s
		}
		return o.err == "" && o.val == s.val && s.same(o.ver), kst{true, s.val, o.ver}
	case opPut:
		return o.err == "", kst{true, i.val, o.rver}
	case opPutMany:
		return o.err == "", kst{true, i.val, "?"}
	case opCas:
		switch {
		case !s.live:
			return o.err == "notexist", s
		case o.err == "":
			return s.same(i.ver), kst{true, i.val, o.rver}
		case s.ver == "?":
			return o.err == "conflict", s
		}
		return o.err == "conflict" && i.ver != s.ver, s
	case opDel:
		if !s.live {
			return o.err == "notexist", s
		}
		return o.err == "", kst{}
	}
	return false, s
}

var kmodel = porcupine.Model{
	Init:  func() any { return kst{} },
	Step:  func(s, i, o any) (bool, any) { return kstep(s.(kst), i.(kin), o.(kout)) },
	Equal: func(a, b any) bool { return a == b },
	DescribeOperation: func(i, o any) string {
		return fmt.Sprintf("%s(%+v) -> %+v", opNames[i.(kin).op], i, o)
	},
}

// do executes an operation and scribbles over everything passed or received
func do(c *fw.Case, s kvs.Storage, key string, in kin) (o kout) {
	val := []byte(in.val)
	rec := kvs.Record{Key: key, Value: val, Version: in.ver}
	var err error
	take := func(r kvs.Record) {
		o.val, o.ver = string(r.Value), r.Version
		if r.Key != key {
			c.Fail("wrong-key", "%s of %q returns the record of %q", opNames[in.op], key, r.Key)
		}
		if r.ExpiresAt != nil {
			c.Fail("wrong-expiration", "%s of %q returns the expiration time %v nobody set", opNames[in.op], key, r.ExpiresAt)
		}
		scribble(r.Value)
	}
	switch in.op {
	case opCreate:
		o.rver, err = s.Create(ctx, rec)
	case opGet:
		var r kvs.Record
		if r, err = s.Get(ctx, key); err == nil {
			take(r)
		}
	case opPut:
		var r kvs.Record
		if r, err = s.Put(ctx, rec); err == nil {
			o.rver = r.Version
		}
	case opPutMany:
		err = s.PutMany(ctx, []kvs.Record{rec})
	case opGetMany:
		var rs []*kvs.Record
		rs, err = s.GetMany(ctx, key+"-none", key)
		if err == nil {
			if len(rs) != 2 || rs[0] != nil {
				c.Fail("get-many", "GetMany of two keys returns %d records %v", len(rs), rs)
			} else if rs[1] == nil {
				err = serrors.ErrNotExist
			} else {
				take(*rs[1])
			}
		}
	case opCas:
		var r kvs.Record
		if r, err = s.CasByVersion(ctx, rec); err == nil {
			o.rver = r.Version
		}
	case opDel:
		err = s.Delete(ctx, key)
	}
	scribble(val)
	o.err = errName(err)
	if strings.HasPrefix(o.err, "other") {
		c.Fail("wrong-error", "%s %s of %q", opNames[in.op], o.err, key)
	}
	return o
}

func scribble(b []byte) {
	for i := range b {
		b[i] = '#'
	}
}

func k01Conc(c *fw.Case) {
	b := newBackend(c.Idx, false)
	defer b.close()
	keys := []string{"a", "b/c", "d"}[:1+c.Rng.Intn(3)]
	workers := 2 + c.Rng.Intn(5)
	ops := 6 + c.Rng.Intn(20)
	var ts, seq int64
	var wg sync.WaitGroup
	var lock sync.Mutex
	hist := map[string][]porcupine.Operation{}
	for w := 0; w < workers; w++ {
		rng := newRng(c)
		st := b.client()
		w := w
		c.Go(&wg, "client", func() {
			if cl, ok := st.(io.Closer); ok {
				defer cl.Close()
			}
			vers := map[string]string{}
			for i := 0; i < ops; i++ {
				key := keys[rng.Intn(len(keys))]
				in := kin{op: rng.Intn(opCount)}
				switch in.op {
				case opCreate, opPut, opCas, opPutMany:
					in.val = fmt.Sprintf("v%d", atomic.AddInt64(&seq, 1))
					if rng.Intn(20) == 0 {
						in.val = ""
					}
				}
				if in.op == opCas {
					in.ver = vers[key]
					if rng.Intn(6) == 0 {
						in.ver = "unknown"
					}
				}
				call := atomic.AddInt64(&ts, 1)
				o := do(c, st, key, in)
				ret := atomic.AddInt64(&ts, 1)
				if v := o.ver + o.rver; v != "" {
					vers[key] = v
				}
				switch o.err {
				case "conflict":
					c.Count("conflicts", 1)
				case "exist":
					c.Count("exists", 1)
				}
				lock.Lock()
				hist[key] = append(hist[key], porcupine.Operation{ClientId: w, Input: in, Call: call, Output: o, Return: ret})
				lock.Unlock()
				if rng.Intn(4) == 0 {
					time.Sleep(time.Duration(rng.Intn(100)) * time.Microsecond)
				}
			}
		})
	}
	wg.Wait()
	for _, key := range keys {
		h := hist[key]
		// the version identifies the value
		put := map[string]string{}
		overlapped := false
		var outs []string
		for i, o := range h {
			in, out := o.Input.(kin), o.Output.(kout)
			if i > 0 && o.Call < h[i-1].Return {
				overlapped = true
			}
			outs = append(outs, opNames[in.op][:1]+out.err)
			ver, val := out.ver, out.val
			if out.err == "" && out.rver != "" {
				ver, val = out.rver, in.val
			}
			if ver == "" {
				if out.err == "" && in.op != opDel && in.op != opPutMany {
					c.Fail("no-version", "%s: %s returns no version", b.name, opNames[in.op])
				}
				continue
			}
			if v, ok := put[ver]; ok && v != val {
				c.Fail("version-reused", "%s: the version %s of %q is given to the values %q and %q", b.name, ver, key, v, val)
			}
			put[ver] = val
		}
		c.Eval(len(h))
		c.Count("histories", 1)
		if overlapped {
			c.Count("overlapped", 1)
			c.Distinct(b.name, strings.Join(outs, ","))
		}
		switch porcupine.CheckOperationsTimeout(kmodel, h, 20*time.Second) {
		case porcupine.Illegal:
			sort.Slice(h, func(i, j int) bool { return h[i].Call < h[j].Call })
			var sb strings.Builder
			for _, o := range h {
				fmt.Fprintf(&sb, "  [%d-%d] client %d %s\n", o.Call, o.Return, o.ClientId, kmodel.DescribeOperation(o.Input, o.Output))
			}
			c.Fail("not-linearizable", "%s: the history of %q is not linearizable:\n%s", b.name, key, sb.String())
		case porcupine.Unknown:
			c.Count("undecided", 1)
		}
		c.Sample("%s %q: %s", b.name, key, strings.Join(outs, ","))
	}
}

// mrec is a record in the sequential model
type mrec struct {
	val, ver string
	exp      time.Time // zero - never
}

func k01Seq(c *fw.Case) {
	b := newBackend(c.Idx, false)
	defer b.close()
	keys := []string{"a", "b", "ab", "abc", "b/c", "b/d/e", "ю"}
	m := map[string]*mrec{}
	vers := map[string][]string{}
	n := 60
	c.Distinct("seq", b.name, c.Idx)
	settle := func() { // the expiration moments are not around
		for {
			now, ok := time.Now(), true
			for _, r := range m {
				if d := r.exp.Sub(now); !r.exp.IsZero() && d > -5*time.Millisecond && d < 5*time.Millisecond {
					ok = false
				}
			}
			if ok {
				b.tick()
				return
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
	live := func(key string) *mrec {
		r, ok := m[key]
		if !ok || !r.exp.IsZero() && r.exp.Before(time.Now()) {
			if ok {
				c.Count("expired", 1)
			}
			delete(m, key)
			return nil
		}
		return r
	}
	check := func(op, key, got, want string) {
		c.Eval(1)
		if got != want {
			for _, r := range m {
				if !r.exp.IsZero() && r.exp.Before(time.Now()) {
					c.Stop() // it expired right now
				}
			}
			c.Fatal("seq-"+op, "%s: %s of %q returns %q, expected %q", b.name, op, key, got, want)
		}
	}
	newRec := func(key string) (kvs.Record, *mrec) {
		mr := &mrec{val: fmt.Sprintf("v%d", c.Rng.Intn(1000000))}
		if c.Rng.Intn(10) == 0 {
			mr.val = ""
		}
		r := kvs.Record{Key: key, Value: []byte(mr.val)}
		switch c.Rng.Intn(4) {
		case 0:
			t := time.Now().Add(time.Duration(10+c.Rng.Intn(40)) * time.Millisecond).Round(0)
			if c.Rng.Intn(10) == 0 {
				t = time.Now().Add(time.Hour).Round(0).UTC()
			}
			mr.exp = t
			tt := t
			r.ExpiresAt = &tt
		}
		return r, mr
	}
	spoil := func(r kvs.Record) {
		scribble(r.Value)
		if r.ExpiresAt != nil {
			*r.ExpiresAt = time.Time{}.Add(time.Hour)
		}
	}
	used := map[string]bool{}
	fresh := func(op, key, ver string) {
		if ver == "" || used[ver] {
			c.Fatal("version-reused", "%s: %s of %q gives the version %q", b.name, op, key, ver)
		}
		used[ver] = true
		vers[key] = append(vers[key], ver)
	}
	same := func(op string, r kvs.Record, key string, x *mrec) {
		check(op, key, r.Key+"="+string(r.Value), key+"="+x.val)
		if x.ver == "" {
			x.ver = r.Version
			fresh(op, key, r.Version)
		}
		check(op+"-version", key, r.Version, x.ver)
		exp := time.Time{}
		if r.ExpiresAt != nil {
			exp = *r.ExpiresAt
		}
		check(op+"-expiration", key, exp.UTC().String(), x.exp.UTC().String())
	}
	for i := 0; i < n; i++ {
		if c.Rng.Intn(5) == 0 {
			time.Sleep(time.Duration(c.Rng.Intn(15)) * time.Millisecond)
		}
		key := keys[c.Rng.Intn(len(keys))]
		settle()
		switch op := c.Rng.Intn(opCount + 1); op {
		case opCreate:
			r, mr := newRec(key)
			x := live(key)
			ver, err := b.Create(ctx, r)
			spoil(r)
			if x != nil {
				check("create", key, errName(err), "exist")
				if x.ver != "" {
					check("create-version", key, ver, x.ver)
				}
				break
			}
			check("create", key, errName(err), "")
			fresh("create", key, ver)
			mr.ver = ver
			m[key] = mr
		case opGet:
			x := live(key)
			r, err := b.Get(ctx, key)
			if x == nil {
				check("get", key, errName(err), "notexist")
				break
			}
			check("get", key, errName(err), "")
			same("get", r, key, x)
			spoil(r)
		case opPut:
			r, mr := newRec(key)
			if len(vers[key]) > 0 {
				r.Version = vers[key][c.Rng.Intn(len(vers[key]))] // it must be ignored
			}
			res, err := b.Put(ctx, r)
			check("put", key, errName(err), "")
			check("put", key, string(res.Value), mr.val)
			fresh("put", key, res.Version)
			mr.ver = res.Version
			m[key] = mr
			spoil(res)
			spoil(r)
		case opPutMany:
			var rs []kvs.Record
			for k := c.Rng.Intn(5); k > 0; k-- {
				r, mr := newRec(keys[c.Rng.Intn(len(keys))])
				rs = append(rs, r)
				m[r.Key] = mr
			}
			check("putmany", "", errName(b.PutMany(ctx, rs)), "")
			for _, r := range rs {
				spoil(r)
			}
		case opGetMany:
			var ks []string
			for k := 1 + c.Rng.Intn(5); k > 0; k-- {
				ks = append(ks, keys[c.Rng.Intn(len(keys))])
			}
			var xs []*mrec
			for _, k := range ks {
				xs = append(xs, live(k))
			}
			rs, err := b.GetMany(ctx, ks...)
			check("getmany", key, errName(err), "")
			check("getmany", key, fmt.Sprint(len(rs)), fmt.Sprint(len(ks)))
			for j, x := range xs {
				check("getmany", ks[j], fmt.Sprint(rs[j] != nil), fmt.Sprint(x != nil))
				if x != nil {
					same("getmany", *rs[j], ks[j], x)
				}
			}
			for _, r := range rs {
				if r != nil {
					spoil(*r)
				}
			}
		case opCas:
			r, mr := newRec(key)
			x := live(key)
			r.Version = "none"
			if len(vers[key]) > 0 {
				r.Version = vers[key][c.Rng.Intn(len(vers[key]))]
			}
			if x != nil && x.ver != "" && c.Rng.Intn(2) == 0 {
				r.Version = x.ver
			}
			old := r.Version
			res, err := b.CasByVersion(ctx, r)
			switch {
			case x == nil:
				check("cas", key, errName(err), "notexist")
			case x.ver != old:
				check("cas", key, errName(err), "conflict")
				c.Count("conflicts", 1)
			default:
				check("cas", key, errName(err), "")
				check("cas", key, string(res.Value), mr.val)
				fresh("cas", key, res.Version)
				mr.ver = res.Version
				m[key] = mr
				spoil(res)
			}
			spoil(r)
		case opDel:
			x := live(key)
			err := b.Delete(ctx, key)
			if x == nil {
				check("delete", key, errName(err), "notexist")
				break
			}
			check("delete", key, errName(err), "")
			delete(m, key)
		default:
			pat, match := pattern(c)
			var want []string
			for _, k := range keys {
				if live(k) != nil && match(k) {
					want = append(want, k)
				}
			}
			it, err := b.ListKeys(ctx, pat)
			check("list", pat, errName(err), "")
			var got []string
			for it.HasNext() {
				k, ok := it.Next()
				if !ok {
					c.Fatal("list", "%s: ListKeys(%q): no key after HasNext()", b.name, pat)
				}
				got = append(got, k)
			}
			if _, ok := it.Next(); ok {
				c.Fatal("list", "%s: ListKeys(%q): a key after the end", b.name, pat)
			}
			it.Close()
			slices.Sort(got)
			slices.Sort(want)
			check("list", pat, fmt.Sprintf("%q", got), fmt.Sprintf("%q", want))
			c.Count("listed", 1)
		}
	}
}

func pattern(c *fw.Case) (string, func(string) bool) {
	has := func(p string) func(string) bool { return func(k string) bool { return strings.HasPrefix(k, p) } }
	switch c.Rng.Intn(7) {
	case 0:
		return "*", has("")
	case 1:
		return "a*", has("a")
	case 2:
		return "b/*", has("b/")
	case 3:
		return "*b*", func(k string) bool { return strings.Contains(k, "b") }
	case 4:
		return "[ab]", func(k string) bool { return k == "a" || k == "b" }
	case 5:
		return "a?", func(k string) bool { return k == "ab" }
	}
	return "abc", func(k string) bool { return k == "abc" }
}
