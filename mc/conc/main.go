// Command conc explores schedules of the real server under the controlled runtime.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"github.com/funny/link"
	log "github.com/sirupsen/logrus"
	"verifmc/rt"
)

type Failure struct {
	Property string `json:"property"`
	Family   string `json:"family"`
	Index    int64  `json:"index"`
	Case     string `json:"case"`
	What     string `json:"what"`
	Schedule string `json:"schedule"`
}

type Family struct {
	Name      string   `json:"name"`
	Cases     int64    `json:"cases"`
	Samples   []string `json:"samples"`
	Points    int64    `json:"max_choice_points"`
	Threads   int64    `json:"max_goroutines"`
	Bound     int64    `json:"max_deviations"`
	Diverged  int64    `json:"diverged"`
	Scenarios int64    `json:"max_scenarios"`
}

type Report struct {
	Property    string    `json:"property"`
	Shard       int       `json:"shard"`
	States      int64     `json:"states"`
	Transitions int64     `json:"transitions"`
	Traces      int64     `json:"traces"`
	Exhaustive  bool      `json:"exhaustive"`
	Families    []*Family `json:"families"`
	Failures    []Failure `json:"failures"`
	Done        bool      `json:"done"`
}

// Scen is one closed scenario: the whole program explored under all schedules to a bound.
type Scen struct {
	Fam     string // family (reporting group)
	Name    string // unique within the property
	Bound   int    // deviations
	Horizon int
	Run     func()
	Level   log.Level // of the log: off unless set
	Desc    string    // what the name does not say
}

var props = map[string]func(tier string) []Scen{}

var (
	fProp     = flag.String("prop", "", "")
	fTier     = flag.String("tier", "quick", "")
	fShard    = flag.Int("shard", 0, "")
	fN        = flag.Int("n", 1, "")
	fOut      = flag.String("out", "", "")
	fDeadline = flag.Float64("deadline", 600, "")
	fProgress = flag.String("progress", "", "")
	fFamily   = flag.String("family", "", "scenario to replay")
	fIndex    = flag.Int64("index", -1, "")
	fSchedule = flag.String("schedule", "", "")
	fTrace    = flag.Bool("trace", false, "")
	fList     = flag.Bool("list", false, "")
	fBound    = flag.Int("bound", -1, "override")
	fResume   = flag.String("resume", "", "continue from this file")
	fMem      = flag.Int64("mem", 1400, "restart at this many MB")
)

var (
	stdout   *os.File
	prog     []byte
	tick     uint64
	rep      Report
	fams     = map[string]*Family{}
	deadline time.Time
	raceFile string
	raceOff  int64
)

func main() {
	flag.Parse()
	stdout = os.Stdout
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null
	if os.Getenv("VERIF_DEBUG") == "" {
		os.Stderr = null
	}
	log.SetOutput(io.Discard)
	log.SetLevel(log.PanicLevel)
	debug.SetGCPercent(400)
	if !rt.RaceOn {
		fmt.Fprintln(stdout, "built without the race detector")
		os.Exit(3)
	}
	for _, kv := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(kv, "log_path=") {
			raceFile = kv[len("log_path="):] + "." + fmt.Sprint(os.Getpid())
		}
	}
	prog = make([]byte, 320)
	if *fProgress != "" {
		if f, err := os.OpenFile(*fProgress, os.O_RDWR|os.O_CREATE, 0644); err == nil {
			f.Truncate(320)
			if m, err := syscall.Mmap(int(f.Fd()), 0, 320, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
				prog = m
			}
		}
	}
	deadline = time.Now().Add(time.Duration(*fDeadline * float64(time.Second)))
	mk, ok := props[*fProp]
	if !ok {
		fmt.Fprintln(stdout, "unknown property", *fProp)
		os.Exit(3)
	}
	rep = Report{Property: *fProp, Shard: *fShard, Exhaustive: true}
	go watchdog()
	reset()
	scens := mk(*fTier)
	// the shallow explorations first: if time runs out, it is depth that is lost, not breadth
	sort.SliceStable(scens, func(i, j int) bool { return scens[i].Bound < scens[j].Bound })
	if f := os.Getenv("VERIF_FAM"); f != "" { // development aid: one family only
		var some []Scen
		for _, s := range scens {
			if s.Fam == f {
				some = append(some, s)
			}
		}
		scens = some
	}
	names := map[string]bool{}
	for _, s := range scens {
		if len(s.Name) > 46 || names[s.Name] {
			fmt.Fprintln(stdout, "bad scenario name", s.Name)
			os.Exit(3)
		}
		names[s.Name] = true
	}
	if *fList {
		for _, s := range scens {
			fmt.Fprintln(stdout, s.Fam, s.Name, s.Bound)
		}
		return
	}
	if *fFamily != "" {
		replay(scens)
		return
	}
	var at saved
	if *fResume != "" {
		at = restore()
	} else {
		for i := range scens {
			fam(scens[i].Fam).Scenarios++
		}
	}
	for i := at.Scen; i < len(scens); i++ {
		skip, bad := 0, 0
		if i == at.Scen {
			skip, bad = at.First, at.Bad
		}
		explore(&scens[i], i, skip, bad)
		if *fBound < 0 && time.Now().After(deadline) {
			rep.Exhaustive = false
			break
		}
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		fmt.Fprintln(stdout, "goroutines", runtime.NumGoroutine(), "heap", ms.HeapInuse>>20, "sys", ms.Sys>>20, "stacks", ms.StackInuse>>20, "rss MB", rss()>>20)
	}
	rep.Done = true
	b, _ := json.Marshal(rep)
	if *fOut == "" {
		fmt.Fprintf(stdout, "%s\n", b)
	} else if err := os.WriteFile(*fOut, b, 0644); err != nil {
		fmt.Fprintln(stdout, err)
		os.Exit(3)
	}
	os.Exit(0)
}

func fam(n string) *Family {
	f := fams[n]
	if f == nil {
		f = &Family{Name: n}
		fams[n] = f
		rep.Families = append(rep.Families, f)
	}
	return f
}

func watchdog() {
	last, since := uint64(0), time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		t := atomic.LoadUint64(&tick)
		if t != last {
			last, since = t, time.Now()
			continue
		}
		if t != 0 && time.Since(since) > 60*time.Second {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(stdout, "HANG\n%s\n", buf)
			os.Exit(77)
		}
	}
}

// saved is where an exploration continues. The race detector never gives memory back, so a
// worker that has grown replaces itself by a fresh process between two subtrees.
type saved struct {
	Scen, First, Bad int
	Deadline         time.Time
	Rep              Report
}

func restore() saved {
	var at saved
	b, err := os.ReadFile(*fResume)
	if err == nil {
		err = json.Unmarshal(b, &at)
	}
	if err != nil {
		fmt.Fprintln(stdout, "cannot continue:", err)
		os.Exit(3)
	}
	rep, deadline = at.Rep, at.Deadline
	for _, f := range rep.Families {
		fams[f.Name] = f
	}
	return at
}

var checked int64

// breathe restarts the process if it has grown too big; first is the number of subtrees of
// the scenario that are done.
func breathe(si, first, bad int) {
	if *fOut == "" || rep.Traces < checked+500 {
		return
	}
	checked = rep.Traces
	if rss()>>20 < *fMem {
		return
	}
	file := *fOut + ".resume"
	b, _ := json.Marshal(saved{si, first, bad, deadline, rep})
	if os.WriteFile(file, b, 0644) != nil {
		return
	}
	args := append([]string{}, os.Args...)
	if *fResume == "" {
		args = append(args, "-resume", file)
	}
	syscall.Dup2(int(stdout.Fd()), 1)
	syscall.Exec("/proc/self/exe", args, os.Environ())
}

// rss is the resident memory of the process in bytes.
func rss() int64 {
	b, _ := os.ReadFile("/proc/self/statm")
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

// reset puts package-level state back so that executions do not influence each other.
func reset() {
	link.VerifReset()
	go808.VerifReset()
	protocol.VerifReset()
}

func put(b []byte, s string) {
	n := copy(b[:len(b)-1], s)
	for i := n; i < len(b); i++ {
		b[i] = 0
	}
}

// execute runs one schedule of a scenario on the implementation.
func execute(s *Scen, devs []rt.Dev, trace bool) (rt.Result, string) {
	atomic.AddUint64(&tick, 1)
	put(prog[64:320], rt.FormatDevs(devs))
	races := rt.RaceErrors()
	reset()
	hz := s.Horizon
	if hz == 0 {
		hz = 60000
	}
	beginExec()
	log.SetLevel(s.Level)
	r := rt.Exec(devs, hz, trace, s.Run)
	log.SetLevel(log.PanicLevel)
	what := r.Violation
	if n := rt.RaceErrors(); n > races {
		t := raceText()
		if what != "" {
			what += "\n"
		}
		what += fmt.Sprintf("data race (%d)\n%s", n-races, t)
	}
	if e := endExec(); e != "" && what == "" {
		what = e
	}
	return r, what
}

func raceText() string {
	b, err := os.ReadFile(raceFile)
	if err != nil {
		return ""
	}
	if int64(len(b)) <= raceOff {
		return ""
	}
	t := string(b[raceOff:])
	raceOff = int64(len(b))
	if len(t) > 5000 {
		t = t[:5000]
	}
	return t
}

func explore(s *Scen, si, skip, bad int) {
	f := fam(s.Fam)
	bound := s.Bound
	if *fBound >= 0 {
		bound = *fBound
	}
	if int64(bound) > f.Bound {
		f.Bound = int64(bound)
	}
	put(prog[16:64], s.Name)
	first := 0 // ordinal of the first deviation, for partitioning
	var rec func(devs []rt.Dev)
	run := func(devs []rt.Dev, count bool) *rt.Result {
		binary.LittleEndian.PutUint64(prog[0:], uint64(si+1))
		binary.LittleEndian.PutUint64(prog[8:], uint64(rep.Traces))
		r, what := execute(s, devs, false)
		if count {
			from := 0
			if len(devs) > 0 {
				from = devs[len(devs)-1].Pos + 1
			}
			if len(r.Points) > from {
				rep.States += int64(len(r.Points) - from)
			}
			rep.States++
			rep.Transitions += int64(r.Steps)
			rep.Traces++
			f.Cases++
			if int64(len(r.Points)) > f.Points {
				f.Points = int64(len(r.Points))
			}
			if int64(r.Threads) > f.Threads {
				f.Threads = int64(r.Threads)
			}
			if len(f.Samples) < 3 && (f.Cases&(f.Cases-1)) == 0 {
				f.Samples = append(f.Samples, fmt.Sprintf("%s schedule [%s]: %d steps, %d choice points, %d goroutines", s.Name, rt.FormatDevs(devs), r.Steps, len(r.Points), r.Threads))
			}
		}
		if r.Diverged {
			f.Diverged++
			rep.Exhaustive = false
		}
		if what != "" && (count || len(devs) > 0) {
			bad++
			if os.Getenv("VERIF_FIRST") != "" { // development: the first failure is enough
				fmt.Fprintf(stdout, "%s [%s]\n%s\n", s.Name, rt.FormatDevs(devs), what)
				os.Exit(9)
			}
			if len(rep.Failures) < 40 {
				rep.Failures = append(rep.Failures, Failure{Property: *fProp, Family: s.Name, Index: rep.Traces, Case: strings.TrimSpace(s.Name+" "+s.Desc) + " schedule [" + rt.FormatDevs(devs) + "]", What: what, Schedule: rt.FormatDevs(devs)})
			}
		}
		return &r
	}
	rec = func(devs []rt.Dev) {
		root := len(devs) == 0
		if root && bound == 0 && si%*fN != *fShard {
			return
		}
		if root && skip == 0 {
			breathe(si, 0, bad)
		}
		r := run(devs, !root || skip == 0 && si%*fN == *fShard)
		if len(devs) >= bound || r.Diverged || r.Violation != "" {
			return
		}
		from := 0
		if !root {
			from = devs[len(devs)-1].Pos + 1
		}
		for p := from; p < len(r.Points); p++ {
			for o := 1; o < int(r.Points[p]); o++ {
				if root {
					first++
					if (first+si)%*fN != *fShard || first <= skip {
						continue
					}
					breathe(si, first-1, bad)
				}
				if bad >= 3 {
					return
				}
				if time.Now().After(deadline) {
					rep.Exhaustive = false
					return
				}
				next := make([]rt.Dev, len(devs)+1)
				copy(next, devs)
				next[len(devs)] = rt.Dev{Pos: p, Opt: o}
				rec(next)
			}
		}
	}
	if bound == 0 && si%*fN != *fShard {
		return
	}
	rec(nil)
}

func replay(scens []Scen) {
	for i := range scens {
		s := &scens[i]
		if s.Name != *fFamily {
			continue
		}
		r, what := execute(s, rt.ParseDevs(*fSchedule), true)
		if *fTrace || what != "" {
			for _, l := range r.Trace {
				fmt.Fprintln(stdout, l)
			}
		}
		fmt.Fprintf(stdout, "steps %d, choice points %d, goroutines %d, diverged %v\n", r.Steps, len(r.Points), r.Threads, r.Diverged)
		if what != "" {
			fmt.Fprintf(stdout, "REPRODUCED %s %s [%s]\n%s\n", *fProp, s.Name, *fSchedule, what)
			os.Exit(1)
		}
		os.Exit(0)
	}
	fmt.Fprintln(stdout, "no such scenario")
	os.Exit(3)
}
