package rt

import (
	"time"
	"unsafe"
)

// Epoch is the virtual start time (ns since 1970), half way through a second so that
// neither rounding direction hides behind whole seconds.
const Epoch = int64(1700000000)*1e9 + 5e8

// VTimer is a virtual timer or ticker.
type VTimer struct {
	at     int64
	period int64
	c      *vchan
	f      func()
	seq    int
	active bool
	sync   byte
}

func now() int64 {
	if w == nil {
		return time.Now().UnixNano()
	}
	return w.clock
}

// Now is the virtual time.
func Now() time.Time {
	if w == nil {
		return time.Now()
	}
	return time.Unix(0, w.clock)
}

// NewVTimer creates a timer that fires after d (and then every period, if positive).
func NewVTimer(d, period int64, p unsafe.Pointer, keep interface{}, capacity int, f func()) *VTimer {
	x := w
	t := &VTimer{period: period, f: f}
	if f == nil {
		t.c = lookup(p, keep, capacity)
	}
	if x != nil {
		x.timers = append(x.timers, t)
		t.arm(d)
	}
	return t
}

// later is t+d, or the end of time.
func later(t, d int64) int64 {
	if d > 0 && t+d < t {
		return 1<<63 - 1
	}
	return t + d
}

func (t *VTimer) arm(d int64) {
	x := w
	if d < 0 {
		d = 0
	}
	ReleaseMerge(unsafe.Pointer(&t.sync))
	t.at = later(x.clock, d)
	t.seq = x.tseq
	x.tseq++
	t.active = true
	if d == 0 && t.period == 0 {
		t.fire()
	}
}

func (t *VTimer) fire() {
	if t.period > 0 {
		t.at = later(t.at, t.period)
	} else {
		t.active = false
	}
	if t.f != nil {
		f := t.f
		Go("timer-func", func() {
			Acquire(unsafe.Pointer(&t.sync))
			f()
		})
		return
	}
	trySend(t.c, time.Unix(0, w.clock))
}

// Stop and Reset have the semantics of time.Timer since Go 1.23: no stale value remains.
func (t *VTimer) Stop() bool {
	if w == nil || w.dying {
		return false
	}
	Point("timer stop", nil)
	was := t.active
	t.active = false
	if t.c != nil && t.c.n > 0 {
		t.c.n, t.c.head = 0, 0
		was = true
	}
	return was
}

func (t *VTimer) Reset(d, period int64) bool {
	if w == nil || w.dying {
		return false
	}
	was := t.Stop()
	t.period = period
	t.arm(d)
	return was
}

// Sleep blocks the thread until the virtual clock has advanced by d.
func Sleep(d int64) {
	if w == nil {
		time.Sleep(time.Duration(d))
		return
	}
	if d <= 0 {
		Point("sleep", nil)
		return
	}
	x := w
	until := later(x.clock, d)
	x.timers = append(x.timers, &VTimer{at: until, active: true, seq: x.tseq, f: nil})
	x.tseq++
	Point("sleep", func() bool { return x.clock >= until })
}

// deadline registers a wake-up so that Advance stops there.
func deadline(at int64) {
	x := w
	x.timers = append(x.timers, &VTimer{at: at, active: true, seq: x.tseq})
	x.tseq++
}

// Advance lets d nanoseconds pass: timers fire in order, and all threads run to idleness
// after each of them. The caller is the harness thread.
func Advance(d int64) {
	x := w
	if x.dying {
		return
	}
	end := x.clock + d
	for {
		Idle()
		var best *VTimer
		for _, t := range x.timers {
			if t.active && t.at <= end && (best == nil || t.at < best.at || t.at == best.at && t.seq < best.seq) {
				best = t
			}
		}
		if best == nil {
			break
		}
		if best.at > x.clock {
			x.clock = best.at
		}
		if best.c == nil && best.f == nil {
			best.active = false // sleeper: its condition is the clock
			continue
		}
		best.fire()
	}
	x.clock = end
	Idle()
}

// Jump moves the clock without letting anybody run: the threads see the new time when they
// are scheduled next. Due timers fire.
func Jump(d int64) {
	x := w
	end := x.clock + d
	x.clock = end
	for _, t := range x.timers {
		if t.active && t.at <= end {
			if t.c == nil && t.f == nil {
				t.active = false
				continue
			}
			t.fire()
			for t.active && t.period > 0 && t.at <= end {
				t.at = later(t.at, t.period)
			}
		}
	}
}

// ElapsedNs is the virtual time since the start of the execution.
func ElapsedNs() int64 { return w.clock - Epoch }
