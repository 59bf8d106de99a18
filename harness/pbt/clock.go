package pbt

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"
)

// The heartbeat measures for how long this process got no CPU, so that a late
// answer on a busy machine can be told from one that never comes.
var (
	beatOnce sync.Once
	beatLost atomic.Int64
)

const beat = 10 * time.Millisecond

func heartbeat() {
	beatOnce.Do(func() {
		go func() {
			for last := time.Now(); ; {
				time.Sleep(beat)
				now := time.Now()
				if over := now.Sub(last) - 3*beat; over > 0 {
					beatLost.Add(int64(over))
				}
				last = now
			}
		}()
	})
}

// Clock measures the time in which this process could run.
type Clock struct {
	start time.Time
	lost  int64
}

// StartClock starts a clock.
func StartClock() Clock {
	heartbeat()
	return Clock{time.Now(), beatLost.Load()}
}

// Start is the time of the start.
func (c Clock) Start() time.Time { return c.start }

// Lost is the time the process could not run.
func (c Clock) Lost() time.Duration { return time.Duration(beatLost.Load() - c.lost) }

// Live is the elapsed time without the lost time.
func (c Clock) Live() time.Duration { return time.Since(c.start) - c.Lost() }

// Late is the failure of something that did not happen in time: it counts at
// once unless the process lost time.
func (c Clock) Late(format string, args ...any) error {
	if c.Lost() > 300*time.Millisecond {
		return Soft(format, args...)
	}
	return fmt.Errorf(format, args...)
}
