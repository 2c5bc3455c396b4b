package fw

import (
	"context"
	"sync"
	"time"
)

// cancelAt is the context which is cancelled when it is asked for its state for the n-th time
type cancelAt struct {
	lock sync.Mutex
	n    int
	done chan struct{}
}

// CancelAt returns the context which becomes cancelled at the n-th call of Err() or Done()
func CancelAt(n int) context.Context {
	c := &cancelAt{n: n, done: make(chan struct{})}
	if n <= 0 {
		close(c.done)
	}
	return c
}

func (c *cancelAt) tick() bool {
	c.lock.Lock()
	defer c.lock.Unlock()
	if c.n > 0 {
		if c.n--; c.n == 0 {
			close(c.done)
		}
	}
	return c.n == 0
}
func (c *cancelAt) Deadline() (t time.Time, ok bool) { return }
func (c *cancelAt) Value(any) any                    { return nil }
func (c *cancelAt) Done() <-chan struct{} {
	c.tick()
	return c.done
}
func (c *cancelAt) Err() error {
	if c.tick() {
		return context.Canceled
	}
	return nil
}
