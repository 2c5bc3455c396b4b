package lib

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/solarisdb/solaris/golibs/chans"
	gctx "github.com/solarisdb/solaris/golibs/context"
	serrors "github.com/solarisdb/solaris/golibs/errors"
	"verif/harness/fw"
)

func init() {
	fw.Register(&fw.Prop{
		ID: "L08",
		Rule: "cancel: contexts with a custom error over parents of any kind are cancelled by several goroutines and by the parent at once, observers poll them: one error wins and stays, it is seen " +
			"exactly when the context is done, children end as well. sleep: sleeps are ended by the time or by the context, whichever is first. wrap: a context over a channel. " +
			"signals: a signal sent at any moment after the creation ends the context. write: writers write to many channels with control channels, readers read and close them: " +
			"every value is in the reported channel exactly once. Distinct by who wins and the outcomes",
		Assumptions: []string{"in time is 10 seconds"},
		MinEvents:   []string{"won", "by-parent", "slept", "interrupted", "wrapped", "signalled", "written", "closed-first"},
		Scens: []fw.Scenario{
			{Name: "cancel", Quick: 2400, Thorough: 60000, Run: l08Cancel},
			{Name: "sleep", Quick: 160, Thorough: 4000, Run: l08Sleep},
			{Name: "wrap", Quick: 400, Thorough: 10000, Run: l08Wrap},
			{Name: "signals", Quick: 800, Thorough: 16000, Run: l08Signals},
			{Name: "write", Quick: 400, Thorough: 16000, Run: l08Write},
		},
	})
}

type ctxKey string

func l08Cancel(c *fw.Case) {
	parent, pcancel := context.WithCancel(context.WithValue(ctx, ctxKey("k"), c.Idx))
	kind := c.Rng.Intn(4)
	perr := context.Canceled
	switch kind {
	case 1:
		parent, pcancel = context.WithTimeout(parent, time.Duration(c.Rng.Intn(2000))*time.Microsecond)
		perr = context.DeadlineExceeded
	case 2: // a parent of the same kind
		p, pc := gctx.WithCancelError(parent)
		perr = errors.New("the error of the parent")
		parent, pcancel = p, func() { pc(perr) }
	}
	defer pcancel()
	cx, cancel := gctx.WithCancelError(parent)
	pd, pok := parent.Deadline()
	if d, ok := cx.Deadline(); d != pd || ok != pok || cx.Value(ctxKey("k")) != c.Idx || cx.Value(ctxKey("z")) != nil {
		c.Fatal("not-inherited", "deadline %v,%v of %v,%v, value %v of %d", d, ok, pd, pok, cx.Value(ctxKey("k")), c.Idx)
	}
	child, chcancel := context.WithCancel(cx)
	defer chcancel()
	var wg sync.WaitGroup
	var started, returned sync.Map // the errors for which cancel is called
	var parentStarted atomic.Bool
	delay := func() time.Duration { return time.Duration(c.Rng.Intn(300)) * time.Microsecond }
	if kind != 1 {
		if err := cx.Err(); err != nil {
			c.Fatal("err-early", "the error of a not cancelled context is %v", err)
		}
	}
	n := c.Rng.Intn(4)
	byParent := n == 0 || c.Rng.Intn(2) == 0
	var errs []error
	for i := 0; i < n; i++ {
		err := fmt.Errorf("cancel %d", i)
		want := err
		if c.Rng.Intn(4) == 0 {
			err, want = nil, serrors.ErrClosed
		}
		errs = append(errs, want)
		d := delay()
		c.Go(&wg, "cancelling", func() {
			time.Sleep(d)
			started.Store(want, true)
			cancel(err)
			returned.Store(want, true)
			if cx.Err() == nil {
				c.Fail("not-cancelled", "no error after the cancel with %v", err)
			}
			select {
			case <-cx.Done():
			default:
				c.Fail("not-cancelled", "not done after the cancel with %v", err)
			}
		})
	}
	if byParent {
		d := delay()
		c.Go(&wg, "cancelling the parent", func() {
			time.Sleep(d)
			parentStarted.Store(true)
			pcancel()
		})
	}
	var first sync.Map
	for i := 0; i < 2; i++ {
		poll := i == 0
		c.Go(&wg, "observing", func() {
			var seen error
			if poll {
				for end := time.Now().Add(inTime); seen == nil && time.Now().Before(end); {
					seen = cx.Err()
				}
				select {
				case <-cx.Done():
				default:
					c.Fail("err-before-done", "the error %v is given while the context is not done", seen)
				}
			} else {
				select {
				case <-cx.Done():
				case <-time.After(inTime):
				}
				if seen = cx.Err(); seen == nil {
					c.Fail("done-no-err", "the context is done and has no error, or isn't done in %v", inTime)
				}
			}
			_, ok := started.Load(seen)
			if !ok && !(kind == 1 || parentStarted.Load()) {
				c.Fail("err-unknown", "the error is %v, nobody has cancelled with it", seen)
			}
			first.Store(seen, true)
			select {
			case <-child.Done():
			case <-time.After(inTime):
				c.Fail("child-alive", "the child is not done")
			}
		})
	}
	c.Within(3*inTime, "stuck", "cancellation", wg.Wait)
	cnt := 0
	var win error
	first.Range(func(k, _ any) bool { win = k.(error); cnt++; return true })
	if cnt != 1 || cx.Err() != win {
		c.Fatal("err-changed", "several errors are seen, the last is %v", cx.Err())
	}
	if child.Err() == nil {
		c.Fatal("child-alive", "no error of the child")
	}
	cancel(errors.New("late"))
	pcancel()
	if cx.Err() != win {
		c.Fatal("err-changed", "the error %v becomes %v", win, cx.Err())
	}
	known := win == parent.Err()
	if known {
		c.Count("by-parent", 1)
		if parent.Err() != perr && parent.Err() != context.Canceled {
			c.Fatal("err-unknown", "the error of the parent is %v", parent.Err())
		}
	}
	for _, e := range errs {
		known = known || e == win
	}
	if !known {
		c.Fatal("err-unknown", "the error is %v", win)
	}
	c.Eval(1)
	c.Count("won", 1)
	c.Distinct("cancel", kind, n, byParent, win.Error())
}

func l08Sleep(c *fw.Case) {
	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		d := time.Duration(c.Rng.Intn(20000)) * time.Microsecond
		cd := time.Duration(c.Rng.Intn(20000)) * time.Microsecond
		mode := c.Rng.Intn(4)
		switch mode {
		case 0: // at the same time
			cd = d
		case 1: // a long one
			d = time.Hour
		}
		if c.Rng.Intn(10) == 0 {
			d = -d
		}
		c.Go(&wg, "sleeping", func() {
			cx, cancel := context.WithCancel(ctx)
			defer cancel()
			want := context.Canceled
			before := time.Now()
			if mode == 2 {
				cx, cancel = context.WithTimeout(ctx, cd)
				defer cancel()
				want = context.DeadlineExceeded
			} else {
				t := time.AfterFunc(cd, cancel)
				defer t.Stop()
			}
			err := gctx.Sleep(cx, d)
			took := time.Since(before)
			switch {
			case err == nil && took < d:
				c.Fail("short-sleep", "the sleep for %v takes %v", d, took)
			case err == nil:
				c.Count("slept", 1)
			case !errors.Is(err, want) || took < cd:
				c.Fail("wrong-error", "the sleep for %v is interrupted after %v with %v, the context is to be closed after %v", d, took, err, cd)
			default:
				c.Count("interrupted", 1)
			}
			if lim := min(max(d, 0), cd) + inTime; took > lim {
				c.Fail("long-sleep", "the sleep for %v, to be interrupted after %v, takes %v", d, cd, took)
			}
			c.Eval(1)
			c.Distinct("sleep", mode, err == nil, cd.Milliseconds(), d.Milliseconds())
		})
	}
	c.Within(4*inTime, "stuck", "sleeping", wg.Wait)
}

func l08Wrap(c *fw.Case) {
	ch := make(chan struct{})
	cx := gctx.WrapChannel(ch)
	child, cancel := context.WithCancel(cx)
	defer cancel()
	if _, ok := cx.Deadline(); ok || cx.Err() != nil || cx.Value(1) != nil || !chans.IsOpened(ch) {
		c.Fatal("wrap", "the context over an open channel: %v, %v", ok, cx.Err())
	}
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		c.Go(&wg, "observing", func() {
			err := gctx.Sleep(cx, time.Minute)
			if !errors.Is(err, serrors.ErrClosed) || !errors.Is(cx.Err(), serrors.ErrClosed) {
				c.Fail("wrap", "the channel is closed, the error is %v", err)
			}
			<-child.Done()
			if child.Err() == nil {
				c.Fail("wrap", "the child has no error")
			}
		})
	}
	time.Sleep(time.Duration(c.Rng.Intn(200)) * time.Microsecond)
	close(ch)
	c.Within(inTime, "stuck", "the channel is closed", wg.Wait)
	if chans.IsOpened(ch) || chans.IsOpened[int](nil) {
		c.Fatal("wrap", "a closed or nil channel is reported as opened")
	}
	c.Eval(1)
	c.Count("wrapped", 1)
	c.Distinct("wrap", c.Idx%7)
}

func l08Signals(c *fw.Case) {
	sigs := []syscall.Signal{syscall.SIGUSR1, syscall.SIGUSR2, syscall.SIGWINCH}
	cx := gctx.NewSignalsContext(syscall.SIGUSR1, syscall.SIGUSR2, syscall.SIGWINCH)
	if cx.Err() != nil {
		c.Fatal("signal-early", "the context is closed with no signal: %v", cx.Err())
	}
	if c.Rng.Intn(2) == 0 {
		time.Sleep(time.Duration(c.Rng.Intn(100)) * time.Microsecond)
	}
	n := 1 + c.Rng.Intn(2)
	for i := 0; i < n; i++ {
		fw.Must(syscall.Kill(syscall.Getpid(), sigs[c.Rng.Intn(3)]))
	}
	select {
	case <-cx.Done():
	case <-time.After(inTime):
		c.Fatal("signal-lost", "the context isn't closed in %v after the signal", inTime)
	}
	if cx.Err() == nil {
		c.Fatal("done-no-err", "no error of the closed context")
	}
	c.Eval(1)
	c.Count("signalled", 1)
	c.Distinct("signals", n)
	time.Sleep(2 * time.Millisecond) // the second signal must not come to the next context
}

func l08Write(c *fw.Case) {
	n := 1 + c.Rng.Intn(4)
	type one struct {
		done chan struct{}
		ch   chan int
		got  map[int]int
		sent sync.Map
		dead atomic.Bool
	}
	var all []*one
	var descs []chans.WriteDesc[int]
	for i := 0; i < n; i++ {
		o := &one{done: make(chan struct{}), ch: make(chan int, c.Rng.Intn(3)), got: map[int]int{}}
		all = append(all, o)
		descs = append(descs, chans.WriteDesc[int]{DoneChan: o.done, WrtChan: o.ch})
	}
	var readers, writers sync.WaitGroup
	stop := make(chan struct{})
	for _, o := range all {
		limit := 20 + c.Rng.Intn(200)
		c.Go(&readers, "reading", func() {
			for k := 0; k < limit; k++ {
				select {
				case v := <-o.ch:
					o.got[v]++
				case <-stop:
					k = limit
				}
			}
			o.dead.Store(true)
			close(o.done)
			<-stop
			for {
				select {
				case v := <-o.ch:
					o.got[v]++
				default:
					return
				}
			}
		})
	}
	var written atomic.Int64
	for w := 0; w < 3; w++ {
		c.Go(&writers, "writing", func() {
			for i := 0; i < 60; i++ {
				v := w*1000 + i
				idx, ok := chans.WriteToManyWithControl(descs, v)
				if idx < 0 || idx >= n {
					c.Fatal("wrong-index", "the index %d of %d", idx, n)
				}
				if ok {
					all[idx].sent.Store(v, true)
					written.Add(1)
				} else {
					if !all[idx].dead.Load() {
						c.Fail("wrong-index", "the channel %d is reported as closed, it isn't", idx)
					}
					c.Count("closed-first", 1)
					if i%4 == 0 {
						break
					}
				}
			}
		})
	}
	c.Within(inTime, "stuck", "writing", writers.Wait)
	close(stop)
	readers.Wait()
	total := 0
	for i, o := range all {
		for v, k := range o.got {
			if _, ok := o.sent.Load(v); !ok || k != 1 {
				c.Fail("not-once", "the value %d is read from the channel %d %d times, written there: %v", v, i, k, ok)
			}
			total += k
		}
	}
	if int64(total) != written.Load() {
		c.Fail("lost", "%d values are written and %d read", written.Load(), total)
	}
	c.Eval(int(written.Load()))
	c.Count("written", total)
	c.Distinct("write", n, total/10)
}
