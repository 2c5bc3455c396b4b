package fw

import (
	"fmt"
	"io"
	"math/rand"
	"sync/atomic"
	"time"

	"github.com/solarisdb/solaris/golibs/logging"
)

type discardLogger struct{}

// logDelay is how long a log call may take, in nanoseconds
var logDelay atomic.Int64

// SlowLog makes some of the log calls last up to d: the code between them takes other interleavings then.
// The returned function restores the fast ones
func SlowLog(d time.Duration) func() {
	logDelay.Store(int64(d))
	return func() { logDelay.Store(0) }
}

func slow() {
	if d := logDelay.Load(); d > 0 && rand.Intn(3) == 0 {
		time.Sleep(time.Duration(rand.Int63n(d)))
	}
}

// the messages are formatted (the arguments are read), but nothing is printed
func (discardLogger) Warnf(f string, a ...interface{})  { fmt.Fprintf(io.Discard, f, a...); slow() }
func (discardLogger) Infof(f string, a ...interface{})  { fmt.Fprintf(io.Discard, f, a...); slow() }
func (discardLogger) Errorf(f string, a ...interface{}) { fmt.Fprintf(io.Discard, f, a...); slow() }
func (discardLogger) Debugf(f string, a ...interface{}) { slow() }
func (discardLogger) Tracef(f string, a ...interface{}) {}

func init() {
	logging.SetConfig(logging.Config{
		NewLoggerF: func(string) logging.Logger { return discardLogger{} },
		SetLevelF:  func(logging.Level) {},
		GetLevelF:  func() logging.Level { return logging.INFO },
	})
}
