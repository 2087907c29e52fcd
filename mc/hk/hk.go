// Package hk is the enumeration kernel of the sequential harness: named families of
// cases, each executed on the implementation under recover, partitioned over worker
// processes by index, with a progress word in a memory-mapped file so that a worker
// that dies or hangs still names the case it was executing.
package hk

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/maphash"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

type Failure struct {
	Property string `json:"property"`
	Family   string `json:"family"`
	Index    int64  `json:"index"`
	Case     string `json:"case"`
	What     string `json:"what"`
}

type FamilyReport struct {
	Name    string   `json:"name"`
	Cases   int64    `json:"cases"`
	Samples []string `json:"samples"`
}

type Report struct {
	Property    string         `json:"property"`
	Shard       int            `json:"shard"`
	States      int64          `json:"states"`
	Transitions int64          `json:"transitions"`
	Traces      int64          `json:"traces"`
	Exhaustive  bool           `json:"exhaustive"`
	Families    []FamilyReport `json:"families"`
	Failures    []Failure      `json:"failures"`
	Done        bool           `json:"done"`
}

type Run struct {
	Prop     string
	Tier     string
	Shard, N int
	OnlyFam  string
	OnlyIdx  int64
	deadline time.Time
	rep      Report
	states   map[uint64]struct{}
	heap     [1]metrics.Sample
	live     uint64
	seed     maphash.Seed
	prog     []byte
	tick     uint64
	curFam   *Fam
	out      string
	stopped  bool
}

type Fam struct {
	r    *Run
	name string
	id   int64
	idx  int64
	bad  int
	rep  *FamilyReport
}

var Stdout *os.File

// development switches: stop at the first failure, run one group of families only
var devFirst, devFam = os.Getenv("VERIF_FIRST") != "", os.Getenv("VERIF_FAM")

// Start parses the worker flags and silences the implementation's own output.
func Start() *Run {
	r := &Run{}
	var dl float64
	var progress string
	flag.StringVar(&r.Prop, "prop", "", "")
	flag.StringVar(&r.Tier, "tier", "quick", "")
	flag.IntVar(&r.Shard, "shard", 0, "")
	flag.IntVar(&r.N, "n", 1, "")
	flag.StringVar(&r.out, "out", "", "")
	flag.Float64Var(&dl, "deadline", 600, "seconds")
	flag.StringVar(&progress, "progress", "", "")
	flag.StringVar(&r.OnlyFam, "family", "", "")
	flag.Int64Var(&r.OnlyIdx, "index", -1, "")
	flag.Parse()
	r.deadline = time.Now().Add(time.Duration(dl * float64(time.Second)))
	r.states = make(map[uint64]struct{})
	r.seed = maphash.MakeSeed()
	r.rep = Report{Property: r.Prop, Shard: r.Shard, Exhaustive: true}
	if progress != "" {
		f, err := os.OpenFile(progress, os.O_RDWR|os.O_CREATE, 0644)
		if err == nil {
			f.Truncate(64)
			if m, err := syscall.Mmap(int(f.Fd()), 0, 64, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
				r.prog = m
			}
		}
	}
	if r.prog == nil {
		r.prog = make([]byte, 64)
	}
	Stdout = os.Stdout
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null
	if os.Getenv("VERIF_DEBUG") == "" {
		// debug.PrintStack of recovered panics goes to fd 2
		os.Stderr = null
	}
	r.heap[0].Name = "/memory/classes/heap/objects:bytes"
	debug.SetGCPercent(400)
	go r.watchdog()
	return r
}

func (r *Run) watchdog() {
	last, since := uint64(0), time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		t := atomic.LoadUint64(&r.tick)
		if t != last {
			last, since = t, time.Now()
			continue
		}
		if t != 0 && time.Since(since) > 90*time.Second {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(Stdout, "HANG\n%s\n", buf)
			os.Exit(77)
		}
	}
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func (r *Run) Pick(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

func (r *Run) Family(name string) *Fam {
	r.rep.Families = append(r.rep.Families, FamilyReport{Name: name})
	id := int64(len(r.rep.Families))
	f := &Fam{r: r, name: name, id: id, idx: -1}
	return f
}

func (f *Fam) report() *FamilyReport { return &f.r.rep.Families[f.id-1] }

// Stopped tells enumeration loops to give up (deadline passed or family failed often enough).
func (f *Fam) Stopped() bool { return f.r.stopped || f.bad >= 8 }

// Ops counts implementation calls (transitions).
func (r *Run) Ops(n int) { r.rep.Transitions += int64(n) }

// State records a distinct explored state or input.
func (r *Run) State(parts ...[]byte) {
	var h maphash.Hash
	h.SetSeed(r.seed)
	for _, p := range parts {
		var l [4]byte
		binary.LittleEndian.PutUint32(l[:], uint32(len(p)))
		h.Write(l[:])
		h.Write(p)
	}
	r.states[h.Sum64()] = struct{}{}
}

// Case runs one element of the space if it belongs to this worker.
func (f *Fam) Case(desc func() string, body func() error) {
	f.idx++
	r := f.r
	if r.stopped || f.bad >= 8 {
		return
	}
	if devFam != "" && !strings.HasPrefix(f.name, devFam) {
		return
	}
	if r.OnlyFam != "" {
		if r.OnlyFam != f.name || r.OnlyIdx != f.idx {
			return
		}
	} else if int(f.idx%int64(r.N)) != r.Shard {
		return
	}
	if r.rep.Traces&255 == 0 && time.Now().After(r.deadline) {
		r.stopped = true
		r.rep.Exhaustive = false
		return
	}
	if r.curFam != f {
		r.curFam = f
		for i := 16; i < 64; i++ {
			r.prog[i] = 0
		}
		copy(r.prog[16:63], f.name)
	}
	binary.LittleEndian.PutUint64(r.prog[0:], uint64(f.id))
	binary.LittleEndian.PutUint64(r.prog[8:], uint64(f.idx))
	atomic.AddUint64(&r.tick, 1)
	if r.rep.Traces&31 == 0 {
		// on a busy machine the concurrent collector falls behind decoders that reserve megabytes
		// for a count field; collect here, and not against the address-space limit
		if metrics.Read(r.heap[:]); r.heap[0].Value.Uint64() > 1<<30+2*r.live {
			runtime.GC()
			metrics.Read(r.heap[:])
			r.live = r.heap[0].Value.Uint64()
		}
	}
	fr := f.report()
	fr.Cases++
	r.rep.Traces++
	if len(fr.Samples) < 2 && (f.idx&(f.idx-1)) == 0 {
		fr.Samples = append(fr.Samples, desc())
	}
	if err := safely(body); err != nil {
		f.bad++
		if devFirst {
			fmt.Fprintf(Stdout, "%s[%d] %s\n%s\n", f.name, f.idx, desc(), err)
			os.Exit(9)
		}
		r.rep.Failures = append(r.rep.Failures, Failure{Property: r.Prop, Family: f.name, Index: f.idx, Case: desc(), What: err.Error()})
	}
}

func safely(body func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 1500 {
				st = st[:1500]
			}
			err = fmt.Errorf("PANIC: %v\n%s", p, st)
		}
	}()
	return body()
}

// NoPanic runs fn and converts a panic into an error with the given context.
func NoPanic(what string, fn func()) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("%s panics: %v", what, p)
		}
	}()
	fn()
	return nil
}

// Finish writes the report.
func (r *Run) Finish() {
	r.rep.States = int64(len(r.states))
	r.rep.Done = true
	b, _ := json.Marshal(r.rep)
	if r.out == "" {
		fmt.Fprintf(Stdout, "%s\n", b)
	} else if err := os.WriteFile(r.out, b, 0644); err != nil {
		fmt.Fprintln(Stdout, err)
		os.Exit(3)
	}
	if r.OnlyFam != "" {
		for _, f := range r.rep.Failures {
			fmt.Fprintf(Stdout, "REPRODUCED %s %s[%d]\n  case: %s\n  what: %s\n", f.Property, f.Family, f.Index, f.Case, f.What)
		}
		if len(r.rep.Failures) > 0 {
			os.Exit(1)
		}
	}
	os.Exit(0)
}
