package lib

import (
	"sync/atomic"
	"time"
)

// maxStall is the longest delay (ns) of the process observed so far: the monitors whose
// assumption is that nobody is stalled don't judge what happened in a stalled process
var maxStall atomic.Int64

func init() {
	go func() {
		const step = 10 * time.Millisecond
		for last := time.Now(); ; {
			time.Sleep(step)
			now := time.Now()
			if d := int64(now.Sub(last) - step); d > maxStall.Load() {
				maxStall.Store(d)
			}
			last = now
		}
	}()
}

// stalled returns whether the process was stalled for d or longer
func stalled(d time.Duration) bool { return time.Duration(maxStall.Load()) >= d }
