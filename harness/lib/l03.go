package lib

import (
	"cmp"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/solarisdb/solaris/golibs/container"
	bts "github.com/solarisdb/solaris/golibs/container/bytes"
	"github.com/solarisdb/solaris/golibs/container/iterable"
	"github.com/solarisdb/solaris/golibs/files"
	serrors "github.com/solarisdb/solaris/golibs/errors"
	"verif/harness/fw"
)

func init() {
	fw.Register(&fw.Prop{
		ID: "L03",
		Rule: "map: random additions, removals and look-ups with several iterators opened, moved and closed at any moments against a model, where an iterator gives the present elements in the " +
			"order of addition. mixer: trees of mixers over random sources with random mixing orders, HasNext called any number of times, resets in the middle: an order-preserving " +
			"merge of the sources without a loss or a duplicate. Non-trivial: elements under the iterators are removed; distinct by the operations outcome",
		MinEvents: []string{"steps", "removed-under", "iterated", "mixed", "reset"},
		Scens: []fw.Scenario{
			{Name: "map", Quick: 20000, Thorough: 150000, Run: l03Map},
			{Name: "mixer", Quick: 15000, Thorough: 100000, Run: l03Mixer},
		},
	})
	fw.Register(&fw.Prop{
		ID: "L04",
		Rule: "ring: random writes, reads (one and many), skips, look-ups and clearings of a ring buffer of any capacity against a queue. blocks: random allocations, releases and writes " +
			"of blocks over a byte storage with re-opening against a set of allocated blocks with their content; incorrect sizes and indices are refused. shared: goroutines allocate, " +
			"fill and free blocks of one storage (in memory or a mapped file), a block is freed by two at once as well: every block has one owner, one freeing succeeds, the storage re-opened " +
			"has exactly the owned blocks. faults: the byte storage fails now and then: the failed operation tells it and changes nothing. Non-trivial: the buffer wraps, the " +
			"storage is exhausted; distinct by the sizes and the outcomes",
		MinEvents: []string{"wrapped", "full", "blocks", "exhausted", "freed", "reopened", "refused", "shared", "raced-free", "failed"},
		Scens: []fw.Scenario{
			{Name: "ring", Quick: 15000, Thorough: 100000, Run: l04Ring},
			{Name: "blocks", Quick: 3000, Thorough: 10000, Run: l04Blocks},
			{Name: "shared", Quick: 240, Thorough: 4000, Run: l04Shared},
			{Name: "faults", Quick: 1000, Thorough: 10000, Run: l04Faults},
		},
	})
}

func l03Map(c *fw.Case) {
	m := iterable.NewMap[int, string]()
	type el struct {
		k, seq int
		v      string
	}
	var els []el
	type iter struct {
		it   iterable.Iterator[iterable.MapEntry[int, string]]
		last int
	}
	var its []*iter
	nk := 1 + c.Rng.Intn(8)
	seq := 0
	pos := func(k int) int { return slices.IndexFunc(els, func(e el) bool { return e.k == k }) }
	next := func(i *iter) (el, bool) {
		for _, e := range els {
			if e.seq > i.last {
				return e, true
			}
		}
		return el{}, false
	}
	var trace []string
	tr := func(f string, a ...any) { trace = append(trace, fmt.Sprintf(f, a...)) }
	defer func() {
		if r := recover(); r != nil {
			if c.Failed() {
				panic(r)
			}
			c.Fatal("map-panic", "%v after %s", r, strings.Join(trace, "; "))
		}
	}()
	fail := func(sig, f string, a ...any) {
		c.Fatal(sig, "%s\nafter %s", fmt.Sprintf(f, a...), strings.Join(trace, "; "))
	}
	for s := 0; s < 40; s++ {
		c.Count("steps", 1)
		k := c.Rng.Intn(nk)
		switch op := c.Rng.Intn(12); op {
		case 0, 1, 2:
			seq++
			v := fmt.Sprint("v", seq)
			tr("add %d", k)
			err := m.Add(k, v)
			if (err != nil) != (pos(k) >= 0) {
				fail("map-add", "addition of %d returns %v", k, err)
			}
			if err == nil {
				els = append(els, el{k, seq, v})
			}
		case 3, 4, 5:
			tr("remove %d", k)
			m.Remove(k)
			if p := pos(k); p >= 0 {
				for _, i := range its {
					if e, ok := next(i); ok && e.k == k {
						c.Count("removed-under", 1)
					}
				}
				els = slices.Delete(els, p, p+1)
			}
		case 6:
			tr("open")
			its = append(its, &iter{it: m.Iterator()})
		case 7:
			if len(its) == 0 {
				break
			}
			i := c.Rng.Intn(len(its))
			tr("close #%d", i)
			its[i].it.Close()
			its = slices.Delete(its, i, i+1)
		default:
			if len(its) == 0 {
				break
			}
			n := c.Rng.Intn(len(its))
			i := its[n]
			e, ok := next(i)
			if c.Rng.Intn(2) == 0 {
				tr("has #%d", n)
				if got := i.it.HasNext(); got != ok {
					fail("map-hasnext", "HasNext() returns %t", got)
				}
				break
			}
			tr("next #%d", n)
			got, gok := i.it.Next()
			if gok != ok || ok && (got.Key != e.k || got.Value != e.v) {
				fail("map-next", "Next() returns %v %t, expected %v %t", got, gok, e, ok)
			}
			if ok {
				i.last = e.seq
				c.Count("iterated", 1)
			}
		}
		c.Eval(1)
		if m.Len() != len(els) {
			fail("map-len", "Len() is %d, expected %d", m.Len(), len(els))
		}
		v, ok := m.Get(k)
		if p := pos(k); ok != (p >= 0) || ok && els[p].v != v {
			fail("map-get", "Get(%d) returns %q %t", k, v, ok)
		}
		if c.Rng.Intn(4) == 0 {
			tr("first")
			f, ok := m.First()
			if ok != (len(els) > 0) || ok && f != els[0].k {
				fail("map-first", "First() returns %d %t, expected %v", f, ok, els)
			}
		}
	}
	for _, i := range its {
		tr("drain")
		for {
			e, ok := next(i)
			got, gok := i.it.Next()
			if gok != ok || ok && (got.Key != e.k || got.Value != e.v) {
				fail("map-next", "Next() returns %v %t, expected %v %t", got, gok, e, ok)
			}
			if !ok {
				break
			}
			i.last = e.seq
		}
		i.it.Close()
	}
	c.Distinct("map", nk, seq, len(els), len(its))
}

func l03Mixer(c *fw.Case) {
	desc := c.Rng.Intn(2) == 0
	sel := func(a, b int) bool { return a <= b }
	if desc {
		sel = func(a, b int) bool { return a >= b }
	}
	var all []int
	resetable := true
	leaf := func() iterable.Iterator[int] {
		n := c.Rng.Intn(6)
		if c.Rng.Intn(6) == 0 {
			resetable = false
			return &iterable.EmptyIterator[int]{}
		}
		s := make([]int, n)
		for i := range s {
			s[i] = c.Rng.Intn(12)
		}
		slices.SortFunc(s, func(a, b int) int {
			if desc {
				a, b = b, a
			}
			return cmp.Compare(a, b)
		})
		all = append(all, s...)
		return iterable.WrapIntSlice(slices.Clone(s))
	}
	its := []iterable.Iterator[int]{}
	for n := 1 + c.Rng.Intn(7); n > 0; n-- {
		its = append(its, leaf())
	}
	for len(its) > 1 {
		mx := &iterable.Mixer[int]{}
		i := c.Rng.Intn(len(its) - 1)
		mx.Init(sel, its[i], its[i+1])
		its[i] = mx
		its = slices.Delete(its, i+1, i+2)
	}
	it := its[0]
	slices.SortFunc(all, func(a, b int) int {
		if desc {
			a, b = b, a
		}
		return cmp.Compare(a, b)
	})
	read := func(n int) (r []int) {
		for len(r) < n {
			var has bool
			k := c.Rng.Intn(3)
			for j := 0; j < k; j++ {
				has = it.HasNext()
			}
			v, ok := it.Next()
			if k > 0 && has != ok {
				c.Fatal("mixer-hasnext", "HasNext() is %t, but Next() is %t", has, ok)
			}
			if !ok {
				if it.HasNext() {
					c.Fatal("mixer-hasnext", "HasNext() is true after the end")
				}
				break
			}
			r = append(r, v)
		}
		return
	}
	c.Eval(1)
	if mx, ok := it.(*iterable.Mixer[int]); ok && c.Rng.Intn(3) == 0 {
		n := c.Rng.Intn(len(all) + 2)
		if got := read(n); !slices.Equal(got, all[:min(n, len(all))]) {
			c.Fatal("mixer-order", "the mix is %v, expected the beginning of %v", got, all)
		}
		err := mx.Reset()
		if resetable && err != nil {
			c.Fatal("mixer-reset", "Reset() returns %v", err)
		}
		if err != nil {
			c.Distinct("mixer-noreset", len(all))
			return
		}
		c.Count("reset", 1)
	}
	if got := read(len(all) + 5); !slices.Equal(got, all) {
		c.Fatal("mixer-order", "the mix is %v, expected %v", got, all)
	}
	c.Count("mixed", len(all))
	if err := it.Close(); err != nil {
		c.Fatal("mixer-close", "Close() returns %v", err)
	}
	c.Distinct("mixer", desc, fmt.Sprint(all))
}

func l04Ring(c *fw.Case) {
	capacity := c.Rng.Intn(9)
	if c.Rng.Intn(10) == 0 {
		capacity = 50 + c.Rng.Intn(200)
	}
	r := container.NewRingBuffer[int](uint(capacity))
	var q []int
	seq, wrapped := 0, 0
	for s := 0; s < 120; s++ {
		c.Eval(1)
		switch op := c.Rng.Intn(12); op {
		case 0, 1, 2, 3, 4:
			for n := 1 + c.Rng.Intn(1+capacity/4); n > 0; n-- {
				seq++
				err := r.Write(seq)
				if len(q) == capacity {
					if !errors.Is(err, serrors.ErrExhausted) {
						c.Fatal("ring-write", "a write to the full buffer of %d returns %v", capacity, err)
					}
					c.Count("full", 1)
				} else {
					if err != nil {
						c.Fatal("ring-write", "a write to the buffer with %d of %d returns %v", len(q), capacity, err)
					}
					q = append(q, seq)
				}
			}
		case 5, 6:
			v, err := r.Read()
			if len(q) == 0 {
				if err != io.EOF {
					c.Fatal("ring-read", "a read from the empty buffer returns %v", err)
				}
				break
			}
			if err != nil || v != q[0] {
				c.Fatal("ring-read", "a read returns %d %v, expected %d", v, err, q[0])
			}
			q = q[1:]
			wrapped++
		case 7, 8:
			dst := make([]int, c.Rng.Intn(capacity+3))
			n := r.ReadN(dst)
			w := min(len(dst), len(q))
			if n != w || !slices.Equal(dst[:n], q[:w]) {
				c.Fatal("ring-readn", "ReadN(%d) returns %v, expected %v", len(dst), dst[:n], q[:w])
			}
			for _, v := range dst[n:] {
				if v != 0 {
					c.Fatal("ring-readn", "ReadN() writes more than it returns")
				}
			}
			q = q[w:]
			wrapped += w
		case 9:
			n := c.Rng.Intn(capacity+3) - 1
			w := max(0, min(n, len(q)))
			if got := r.Skip(n); got != w {
				c.Fatal("ring-skip", "Skip(%d) returns %d, expected %d", n, got, w)
			}
			q = q[w:]
			wrapped += w
		case 10:
			if c.Rng.Intn(4) == 0 {
				r.Clear()
				wrapped += len(q)
				q = nil
			}
		default:
			for _, i := range []int{-1, len(q)} {
				if p, _ := fw.Try(func() { r.At(i) }); p == nil {
					c.Fatal("ring-at", "At(%d) of %d elements returns", i, len(q))
				}
			}
		}
		if r.Len() != len(q) || r.Cap() != capacity {
			c.Fatal("ring-len", "Len() is %d and Cap() is %d, expected %d and %d", r.Len(), r.Cap(), len(q), capacity)
		}
		for i, v := range q {
			if got := r.At(i); got != v {
				c.Fatal("ring-at", "At(%d) is %d, expected %d", i, got, v)
			}
		}
	}
	if wrapped > capacity {
		c.Count("wrapped", 1)
	}
	c.Distinct("ring", capacity, seq, wrapped)
}

func l04Blocks(c *fw.Case) {
	if c.Rng.Intn(6) == 0 {
		// incorrect sizes
		bs := pick(c, 0, -1, 3, 5, 6, 7, 100, 1000, 4095, 4097, 6000, -8, 1<<20+1)
		size := pick(c, 0, 1, 100, 4096, 72, 1<<16)
		fit := c.Rng.Intn(2) == 0
		_, err := bts.NewBlocks(bs, bts.NewInMemBytes(size), fit)
		if !errors.Is(err, serrors.ErrInvalid) {
			c.Fatal("blocks-size", "the block size %d over %d bytes (fit=%t) is accepted or refused with %v", bs, size, fit, err)
		}
		c.Count("refused", 1)
		c.Distinct("bad", bs, size, fit)
		return
	}
	bs := pick(c, 1, 1, 2, 4, 8, 16)
	n := bts.GetBlocksInSegment(bs)
	if n != bs*8+1 {
		c.Fatal("blocks-segment", "%d blocks of %d bytes in a segment", n, bs)
	}
	segs := 1 + c.Rng.Intn(4)
	extra := 0
	fit := c.Rng.Intn(2) == 0
	if c.Rng.Intn(3) == 0 {
		extra = 1 + c.Rng.Intn(bs*n-1)
	}
	buf := bts.NewInMemBytes(segs*bs*n + extra)
	bks, err := bts.NewBlocks(bs, buf, fit)
	if extra > 0 && fit {
		if !errors.Is(err, serrors.ErrInvalid) {
			c.Fatal("blocks-size", "%d extra bytes are accepted, when it must fit: %v", extra, err)
		}
		c.Count("refused", 1)
		return
	}
	if err != nil {
		c.Fatal("blocks-size", "%d segments of the blocks of %d: %v", segs, bs, err)
	}
	total := segs * bs * 8
	used := map[int][]byte{}
	var idxs []int
	steps := 100 + c.Rng.Intn(2*total)
	grow := c.Rng.Intn(3)
	for s := 0; s < steps; s++ {
		c.Eval(1)
		switch op := c.Rng.Intn(10 + 3*grow); {
		case op >= 5:
			i, err := bks.ArrangeBlock()
			if len(used) == total {
				if !errors.Is(err, serrors.ErrExhausted) {
					c.Fatal("blocks-exhausted", "allocation from the full storage: %d %v", i, err)
				}
				c.Count("exhausted", 1)
				break
			}
			if err != nil {
				c.Fatal("blocks-arrange", "allocation, %d of %d are used: %v", len(used), total, err)
			}
			if _, ok := used[i]; ok || i < 0 || i >= total {
				c.Fatal("blocks-arrange", "allocation gives the block %d which is used already or out of bounds %d", i, total)
			}
			b, err := bks.Block(i)
			if err != nil || len(b) != bs {
				c.Fatal("blocks-block", "the block %d is of %d bytes: %v", i, len(b), err)
			}
			c.Rng.Read(b)
			used[i] = slices.Clone(b)
			idxs = append(idxs, i)
			c.Count("blocks", 1)
		case op >= 2:
			if len(idxs) == 0 {
				break
			}
			p := c.Rng.Intn(len(idxs))
			i := idxs[p]
			if err := bks.FreeBlock(i); err != nil {
				c.Fatal("blocks-free", "freeing of the block %d: %v", i, err)
			}
			if err := bks.FreeBlock(i); !errors.Is(err, serrors.ErrNotExist) {
				c.Fatal("blocks-free", "second freeing of the block %d: %v", i, err)
			}
			idxs = slices.Delete(idxs, p, p+1)
			delete(used, i)
			c.Count("freed", 1)
		case op == 1:
			for _, i := range []int{-1, total, total + c.Rng.Intn(1000), -c.Rng.Intn(1000) - 1} {
				if err := bks.FreeBlock(i); !errors.Is(err, serrors.ErrInvalid) {
					c.Fatal("blocks-bounds", "freeing of the block %d of %d: %v", i, total, err)
				}
				if _, err := bks.Block(i); !errors.Is(err, serrors.ErrInvalid) {
					c.Fatal("blocks-bounds", "the block %d of %d: %v", i, total, err)
				}
			}
			c.Count("refused", 1)
		default:
			if c.Rng.Intn(4) == 0 {
				bks, err = bts.NewBlocks(bs, buf, fit)
				if err != nil {
					c.Fatal("blocks-reopen", "re-opening: %v", err)
				}
				c.Count("reopened", 1)
			}
		}
		if bks.Available() != total-len(used) || bks.Count() != total || bks.Segments() != segs {
			c.Fatal("blocks-available", "%d of %d blocks are available, expected %d of %d", bks.Available(), bks.Count(), total-len(used), total)
		}
		if s%16 == 0 || s == steps-1 {
			for i, v := range used {
				if b, err := bks.Block(i); err != nil || !slices.Equal(b, v) {
					c.Fatal("blocks-content", "the content of the block %d is changed by others (%v)", i, err)
				}
			}
		}
	}
	c.Distinct("blocks", bs, segs, len(used), extra > 0)
}

// l04Shared - one blocks storage is used by many goroutines
func l04Shared(c *fw.Case) {
	bs := pick(c, 1, 1, 2, 4, 8)
	segs := 1 + c.Rng.Intn(3)
	size := segs * bs * bts.GetBlocksInSegment(bs)
	total := segs * bs * 8
	var buf bts.Buffer = bts.NewInMemBytes(size)
	fn := ""
	if c.Rng.Intn(2) == 0 {
		fn = filepath.Join(c.Dir(), "blocks")
		size = (size + files.BlockSize - 1) / files.BlockSize * files.BlockSize
		segs = size / (bs * bts.GetBlocksInSegment(bs))
		total = segs * bs * 8
		fw.Must(os.WriteFile(fn, nil, 0o644))
		var err error
		buf, err = files.NewMMFile(fn, int64(size))
		fw.Must(err)
	}
	bks, err := bts.NewBlocks(bs, buf, false)
	if err != nil {
		c.Fatal("blocks-size", "%d segments of the blocks of %d: %v", segs, bs, err)
	}
	var lock sync.Mutex
	owned := map[int]byte{}
	var cnt atomic.Int64 // the blocks which are owned or are being taken
	var wg sync.WaitGroup
	workers := 2 + c.Rng.Intn(4)
	freed := 0
	for w := 0; w < workers; w++ {
		rng := newRng(c)
		c.Go(&wg, "using blocks", func() {
			var mine []int
			for s := 0; s < 150; s++ {
				if rng.Intn(5) < 3 {
					before := cnt.Add(1)
					i, err := bks.ArrangeBlock()
					if err != nil {
						cnt.Add(-1)
						if !errors.Is(err, serrors.ErrExhausted) || before < int64(total-workers) && before < int64(total)/2 {
							c.Fatal("blocks-arrange", "allocation, about %d of %d are used: %v", before, total, err)
						}
						continue
					}
					lock.Lock()
					_, ok := owned[i]
					owned[i] = byte(w + 1)
					lock.Unlock()
					if ok || i < 0 || i >= total {
						c.Fatal("blocks-arrange", "the block %d is given to two owners, or is out of bounds %d", i, total)
					}
					b, err := bks.Block(i)
					if err != nil || len(b) != bs {
						c.Fatal("blocks-block", "the block %d is of %d bytes: %v", i, len(b), err)
					}
					for j := range b {
						b[j] = byte(w + 1)
					}
					mine = append(mine, i)
				} else if len(mine) > 0 {
					p := rng.Intn(len(mine))
					i := mine[p]
					mine = slices.Delete(mine, p, p+1)
					b, err := bks.Block(i)
					if err != nil {
						c.Fatal("blocks-block", "the block %d: %v", i, err)
					}
					for _, v := range b {
						if v != byte(w+1) {
							c.Fatal("blocks-content", "the content of the block %d is changed by others", i)
						}
					}
					lock.Lock()
					delete(owned, i)
					freed++
					lock.Unlock()
					if err := bks.FreeBlock(i); err != nil {
						c.Fatal("blocks-free", "freeing of the block %d: %v", i, err)
					}
					cnt.Add(-1)
				}
			}
		})
	}
	if !c.Within(inTime, "stuck", "blocks used by several goroutines", wg.Wait) || c.Failed() {
		return
	}
	c.Eval(workers * 150)
	c.Count("shared", len(owned))
	check := func(when string) {
		if bks.Available() != total-len(owned) || bks.Count() != total {
			c.Fatal("blocks-available", "%s: %d of %d blocks are available, expected %d of %d", when, bks.Available(), bks.Count(), total-len(owned), total)
		}
	}
	check("after the concurrent use")
	// a block is freed by two at once, one of them succeeds
	var idxs []int
	for i := range owned {
		idxs = append(idxs, i)
	}
	slices.Sort(idxs)
	start := make(chan struct{})
	var ok [2][]bool
	for k := range ok {
		ok[k] = make([]bool, len(idxs))
		c.Go(&wg, "freeing", func() {
			<-start
			for n, i := range idxs {
				err := bks.FreeBlock(i)
				ok[k][n] = err == nil
				if err != nil && !errors.Is(err, serrors.ErrNotExist) {
					c.Fatal("blocks-free", "freeing of the block %d by two: %v", i, err)
				}
			}
		})
	}
	close(start)
	if !c.Within(inTime, "stuck", "freeing", wg.Wait) || c.Failed() {
		return
	}
	for n, i := range idxs {
		if ok[0][n] == ok[1][n] {
			c.Fatal("blocks-free", "the block %d is freed by two: they are told %t and %t", i, ok[0][n], ok[1][n])
		}
		delete(owned, i)
		c.Count("raced-free", 1)
	}
	check("after the freeing by two")
	// some more and re-open
	for n := c.Rng.Intn(total); n > 0; n-- {
		i, err := bks.ArrangeBlock()
		if _, dup := owned[i]; err != nil || dup {
			c.Fatal("blocks-arrange", "the block %d of %d: %v", i, total, err)
		}
		owned[i] = 1
	}
	if fn != "" {
		if err := bks.Close(); err != nil {
			c.Fatal("blocks-close", "closing: %v", err)
		}
		buf, err = files.NewMMFile(fn, -1)
		fw.Must(err)
		defer buf.Close()
	}
	bks, err = bts.NewBlocks(bs, buf, false)
	if err != nil {
		c.Fatal("blocks-reopen", "re-opening: %v", err)
	}
	check("after re-opening")
	for i := range owned {
		if err := bks.FreeBlock(i); err != nil {
			c.Fatal("blocks-reopen", "the block %d is lost by re-opening: %v", i, err)
		}
	}
	c.Distinct("shared", bs, segs, workers, freed, fn != "")
}

// badBuffer fails now and then
type badBuffer struct {
	buffer
	bad func() bool
}

type buffer = bts.Buffer

var errBad = errors.New("the buffer is not available")

func (b *badBuffer) Buffer(offs int64, size int) ([]byte, error) {
	if b.bad() {
		return nil, errBad
	}
	return b.buffer.Buffer(offs, size)
}

func l04Faults(c *fw.Case) {
	bs := pick(c, 1, 2, 4)
	segs := 1 + c.Rng.Intn(3)
	bad := false
	buf := &badBuffer{buffer: bts.NewInMemBytes(segs * bs * bts.GetBlocksInSegment(bs)), bad: func() bool { return bad }}
	bks, err := bts.NewBlocks(bs, buf, true)
	fw.Must(err)
	total := segs * bs * 8
	used := map[int]bool{}
	c.Within(inTime, "stuck", "operations after a failed one", func() {
		for s := 0; s < 60; s++ {
			bad = c.Rng.Intn(3) == 0
			c.Eval(1)
			switch c.Rng.Intn(4) {
			case 0, 1:
				i, err := bks.ArrangeBlock()
				switch {
				case len(used) == total:
					if err == nil {
						c.Fatal("blocks-exhausted", "the full storage gives the block %d", i)
					}
				case bad && err != nil:
					if errors.Is(err, serrors.ErrExhausted) {
						c.Fatal("blocks-fault", "the storage is not available and %d of %d are used, but the allocation tells %v", len(used), total, err)
					}
				case err != nil || used[i]:
					c.Fatal("blocks-arrange", "the block %d (used %t): %v", i, used[i], err)
				default:
					used[i] = true
				}
			case 2:
				for i := range used {
					err := bks.FreeBlock(i)
					if !bad && err != nil || errors.Is(err, serrors.ErrNotExist) {
						c.Fatal("blocks-fault", "freeing of the block %d, available %t: %v", i, !bad, err)
					}
					if err == nil {
						delete(used, i)
					}
					break
				}
			default:
				x, err := bts.NewBlocks(bs, buf, true)
				if !bad && err != nil {
					c.Fatal("blocks-reopen", "re-opening: %v", err)
				}
				if err == nil {
					bks = x
				}
			}
			if bad {
				c.Count("failed", 1)
			}
			if bks.Available() != total-len(used) {
				c.Fatal("blocks-available", "%d blocks are available, expected %d", bks.Available(), total-len(used))
			}
		}
	})
	c.Distinct("faults", bs, segs, len(used))
}
