// Package rt is the controlled runtime of the concurrency harness: a cooperative scheduler
// whose every decision can be dictated, with virtual channels, a virtual clock and an
// in-memory network on top. Exactly one controlled goroutine runs at a time. The package is
// compiled without race instrumentation and hides its hand-offs from the race detector, so
// the detector sees only the synchronization of the program under test.
package rt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"unsafe"
)

const maxThreads = 7000

// Thread is a controlled goroutine.
type Thread struct {
	ID      int
	Name    string
	sem     chan struct{}
	ready   func() bool // nil: runnable
	what    string
	low     bool // waits for everybody else to be idle
	done    bool
	started bool
	fn      func()
	endSync byte

	// pending channel operation
	ops     []*Op
	opSeq   int
	opDone  bool
	opIdx   int
	opVal   interface{}
	opOK    bool
	xferA   byte
	xferB   byte
	burst   int
	Harness bool
}

// Dev is one deviation from the default schedule: option Opt at choice point Pos.
type Dev struct {
	Pos int
	Opt int
}

type Result struct {
	Points    []uint8 // number of options of each choice point
	Steps     int
	Violation string
	Diverged  bool
	Trace     []string
	Threads   int
}

type world struct {
	threads  []*Thread
	live     []*Thread // those not done, by ID
	opts     []*Thread
	n        int
	cur      *Thread
	devs     []Dev
	nextDev  int
	points   []uint8
	quiet    int
	steps    int
	horizon  int
	dying    bool
	aborted  bool
	diverged bool
	viol     string
	fin      chan struct{}
	endOne   chan struct{}
	trace    bool
	traceLog []string
	chans    []*vchan
	seq      int
	clock    int64
	timers   []*VTimer
	tseq     int
	net      *netState
	log      *logEntry
	logTail  *logEntry
	logSync  byte
	data     interface{}
}

var w *world

// Active reports whether a controlled execution is running.
func Active() bool { return w != nil }

// Exec runs one execution of main under the schedule devs.
func Exec(devs []Dev, horizon int, trace bool, main func()) Result {
	x := &world{devs: devs, horizon: horizon, trace: trace, clock: Epoch}
	x.fin = make(chan struct{}, 1)
	x.endOne = make(chan struct{}, 1)
	x.net = newNet()
	w = x
	t := newThread("main", main)
	t.Harness = true
	x.cur = t
	t.started = true
	go threadMain(t)
	hide()
	t.sem <- struct{}{}
	<-x.fin
	unhide()
	// tear down what is left, one thread at a time
	x.dying = true
	for i := 0; i < x.n; i++ {
		th := x.threads[i]
		if th.done {
			continue
		}
		x.cur = th
		hide()
		th.sem <- struct{}{}
		<-x.endOne
		unhide()
	}
	for i := 0; i < x.n; i++ {
		Acquire(unsafe.Pointer(&x.threads[i].endSync))
	}
	Acquire(unsafe.Pointer(&x.logSync))
	w = nil
	if !x.aborted && !x.diverged && x.nextDev != len(x.devs) {
		x.diverged = true
	}
	return Result{Points: x.points, Steps: x.steps, Violation: x.viol, Diverged: x.diverged, Trace: x.traceLog, Threads: x.n}
}

func newThread(name string, fn func()) *Thread {
	x := w
	if x.n >= maxThreads {
		x.fail("more than " + strconv.Itoa(maxThreads) + " goroutines")
		return nil
	}
	t := &Thread{ID: x.n, Name: name, sem: make(chan struct{}, 1), fn: fn}
	x.threads = append(x.threads, t)
	x.live = append(x.live, t)
	x.n++
	return t
}

func threadMain(t *Thread) {
	x := w
	hide()
	<-t.sem
	unhide()
	defer func() {
		if p := recover(); p != nil && !x.dying {
			if x.viol == "" {
				st := string(debug.Stack())
				if i := strings.Index(st, "panic("); i >= 0 {
					st = st[i:]
				}
				if len(st) > 2500 {
					st = st[:2500]
				}
				x.viol = fmt.Sprintf("panic in goroutine %s: %v\n%s", t.Name, p, st)
			}
			x.aborted = true
		}
		t.done = true
		ReleaseMerge(unsafe.Pointer(&t.endSync))
		if x.dying {
			hide()
			x.endOne <- struct{}{}
			unhide()
			return
		}
		if x.aborted || t.ID == 0 {
			hide()
			x.fin <- struct{}{}
			unhide()
			return
		}
		t.what = "exit"
		x.schedule(t)
	}()
	if x.dying {
		return
	}
	t.ready = nil
	t.fn()
}

// fail records a violation and ends the execution; it does not return.
func (x *world) fail(msg string) {
	if x.dying {
		runtime.Goexit()
	}
	if x.viol == "" {
		x.viol = msg
	}
	x.aborted = true
	runtime.Goexit()
}

// Fail reports a violation found by the harness and ends the execution.
func Fail(format string, a ...interface{}) {
	w.fail(fmt.Sprintf(format, a...))
}

// Go starts a controlled goroutine.
func Go(name string, fn func()) *Thread {
	x := w
	if x == nil {
		go fn()
		return nil
	}
	if x.dying {
		return nil
	}
	t := newThread(name, fn)
	if t == nil {
		return nil
	}
	t.started = true
	t.what = "start"
	go threadMain(t)
	return t
}

// Point is a scheduling point: any enabled thread may run before the caller continues,
// which it does once ready (nil: always) holds.
func Point(what string, ready func() bool) {
	x := w
	if x == nil {
		if ready != nil && !ready() {
			panic("verif: blocking operation outside a controlled execution: " + what)
		}
		return
	}
	t := x.cur
	if x.dying {
		if ready != nil && !ready() {
			runtime.Goexit()
		}
		return
	}
	t.ready = ready
	t.what = what
	x.schedule(t)
	t.ready = nil
}

// Dying tells deferred code that the execution is being torn down.
func Dying() bool { return w != nil && w.dying }

func (t *Thread) enabled() bool {
	if t.done || t.low {
		return false
	}
	return t.ready == nil || t.ready()
}

func (x *world) schedule(t *Thread) {
	x.steps++
	if x.steps > x.horizon {
		if !t.done {
			x.fail(fmt.Sprintf("no quiescence after %d steps (livelock); last thread %s at %s", x.horizon, t.Name, t.what))
		}
	}
	at := 0 // the first live thread at or after t
	keep := x.live[:0]
	for _, c := range x.live {
		if c.done {
			continue
		}
		if c.ID < t.ID {
			at++
		}
		keep = append(keep, c)
	}
	for i := len(keep); i < len(x.live); i++ {
		x.live[i] = nil
	}
	x.live = keep
	for len(x.opts) < len(keep)+1 {
		x.opts = append(x.opts, nil)
	}
	opts := x.opts
	n := 0
	tEn := t.enabled()
	spin := false
	if tEn {
		t.burst++
		spin = t.burst > 400
		if !spin {
			opts[0] = t
			n = 1
		}
	}
	for i := range keep {
		j := at + i
		if j >= len(keep) {
			j -= len(keep)
		}
		c := keep[j]
		if c != t && c.enabled() {
			opts[n] = c
			n++
		}
	}
	if spin {
		opts[n] = t
		n++
		t.burst = 0
	}
	if n == 0 {
		// everybody is idle: a thread that waits for idleness continues
		for i := range keep {
			c := keep[(at+i)%len(keep)]
			if !c.done && c.low && (c.ready == nil || c.ready()) {
				opts[0] = c
				n = 1
				break
			}
		}
	}
	if n == 0 {
		if x.viol == "" {
			x.viol = "deadlock: " + x.describe()
		}
		x.aborted = true
		if t.done {
			hide()
			x.fin <- struct{}{}
			unhide()
			return
		}
		runtime.Goexit()
	}
	k := 0
	if n > 250 {
		n = 250
	}
	if n > 1 && x.quiet == 0 {
		k = x.choose(n)
	}
	next := opts[k]
	if next != t {
		t.burst = 0
	}
	if x.trace && (next != t || x.quiet == 0) {
		x.traceLog = append(x.traceLog, fmt.Sprintf("%d %s: %s", len(x.points), next.Name, next.what))
	}
	if next == t {
		return
	}
	x.cur = next
	if t.done {
		hide()
		next.sem <- struct{}{}
		unhide()
		return
	}
	hide()
	next.sem <- struct{}{}
	<-t.sem
	unhide()
	if x.dying {
		runtime.Goexit()
	}
}

// choose consults the schedule at a choice point with n options.
func (x *world) choose(n int) int {
	pos := len(x.points)
	if n > 255 {
		n = 255
	}
	x.points = append(x.points, uint8(n))
	if x.nextDev < len(x.devs) && x.devs[x.nextDev].Pos == pos {
		k := x.devs[x.nextDev].Opt
		x.nextDev++
		if k >= n {
			x.diverged = true
			return 0
		}
		return k
	}
	return 0
}

// Choose lets a model component make a nondeterministic choice that is explored.
func Choose(n int) int {
	x := w
	if x == nil || x.dying || n <= 1 || x.quiet > 0 {
		return 0
	}
	return x.choose(n)
}

func (x *world) describe() string {
	var b strings.Builder
	for i := 0; i < x.n; i++ {
		t := x.threads[i]
		if !t.done {
			fmt.Fprintf(&b, "[%s blocked at %s] ", t.Name, t.what)
		}
	}
	return b.String()
}

// Blocked describes the threads that have not finished.
func Blocked() string { return w.describe() }

// Idle waits until no other thread can run.
func Idle() {
	x := w
	if x.dying {
		return
	}
	t := x.cur
	t.low = true
	t.ready = nil
	t.what = "idle"
	x.schedule(t)
	t.low = false
}

// Quiet switches the recording of choice points off (default schedule) or on again.
func Quiet(on bool) {
	if w == nil || w.dying {
		return
	}
	if on {
		w.quiet++
	} else {
		w.quiet--
	}
}

// Done reports whether a thread has finished.
func (t *Thread) Done() bool { return t == nil || t.done }

// Where describes what the thread is waiting for.
func (t *Thread) Where() string { return t.what }

// AcquireEnded orders everything goroutines that have ended did before what follows.
func AcquireEnded() {
	for _, t := range w.threads {
		if t != nil && t.done {
			Acquire(unsafe.Pointer(&t.endSync))
		}
	}
}

// Join waits for a thread.
func (t *Thread) Join() { Point("join "+t.Name, func() bool { return t.done }) }

// CurName is the name of the running thread.
func CurName() string { return w.cur.Name }
func CurID() int      { return w.cur.ID }

// ---- event log: invisible to the race detector except for the reader at the end ----

type logEntry struct {
	v    interface{}
	next *logEntry
}

// Log appends an event.
func Log(v interface{}) {
	x := w
	if x == nil || x.dying {
		return
	}
	ReleaseMerge(unsafe.Pointer(&x.logSync))
	e := &logEntry{v: v}
	if x.logTail == nil {
		x.log = e
	} else {
		x.logTail.next = e
	}
	x.logTail = e
}

// Events returns the events so far; the caller becomes ordered after their producers.
func Events() []interface{} {
	x := w
	Acquire(unsafe.Pointer(&x.logSync))
	var out []interface{}
	for e := x.log; e != nil; e = e.next {
		out = append(out, e.v)
	}
	return out
}

// Step is a logical time stamp: the number of scheduling steps so far.
func Step() int { return w.steps }

// FormatDevs renders a schedule.
func FormatDevs(d []Dev) string {
	var b strings.Builder
	for i, x := range d {
		if i > 0 {
			b.WriteByte(',')
		}
		fmt.Fprintf(&b, "%d:%d", x.Pos, x.Opt)
	}
	return b.String()
}

// ParseDevs reads a rendered schedule.
func ParseDevs(s string) []Dev {
	var out []Dev
	for _, f := range strings.Split(s, ",") {
		if i := strings.IndexByte(f, ':'); i > 0 {
			p, _ := strconv.Atoi(f[:i])
			o, _ := strconv.Atoi(f[i+1:])
			out = append(out, Dev{p, o})
		}
	}
	return out
}

// Live counts what is still there: goroutines that have not finished and armed timers.
func Live() (threads, timers int) {
	x := w
	for i := 0; i < x.n; i++ {
		if !x.threads[i].done {
			threads++
		}
	}
	for _, t := range x.timers {
		if t.active && (t.period > 0 || t.at > x.clock) {
			timers++
		}
	}
	return
}
