package main

// C18 (part) and C27: faults and crashes at every system call of every operation on stored
// uploads. The reference is a set-valued store: for each packet the contents it may have
// (none among them), narrowed by what the implementation answers.

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"syscall"

	"gitee.com/coco/go808"
	"verifmc/flt"
	"verifmc/hk"
)

func init() {
	props["C18f"] = c18f
	props["C27s"] = c27s
}

// alt is what one packet may hold; absent is a nil slice.
type alt [][]byte

func (a alt) absent() bool {
	for _, x := range a {
		if x == nil {
			return true
		}
	}
	return false
}
func (a alt) present() alt {
	var o alt
	for _, x := range a {
		if x != nil {
			o = append(o, x)
		}
	}
	return o
}
func (a alt) with(b []byte) alt {
	for _, x := range a {
		if (x == nil) == (b == nil) && bytes.Equal(x, b) {
			return a
		}
	}
	return append(append(alt{}, a...), b)
}

type belief []alt // by packet number - 1

// merged tells whether got can be the merge of present packets.
func (bl belief) merged(got []byte) bool {
	ends := map[int]bool{0: true}
	for _, a := range bl {
		next := map[int]bool{}
		for e := range ends {
			for _, x := range a.present() {
				if bytes.HasPrefix(got[e:], x) {
					next[e+len(x)] = true
				}
			}
		}
		ends = next
	}
	return ends[len(got)]
}

func (bl belief) String() string {
	var p []string
	for i, a := range bl {
		var q []string
		for _, x := range a {
			if x == nil {
				q = append(q, "none")
			} else if len(x) > 8 {
				q = append(q, fmt.Sprintf("%x..(%d)", x[:8], len(x)))
			} else {
				q = append(q, fmt.Sprintf("%x", x))
			}
		}
		p = append(p, fmt.Sprintf("%d:{%s}", i+1, strings.Join(q, ",")))
	}
	return strings.Join(p, " ")
}

// fault is a fault at a step of the operation with a given index in the history.
type fault struct {
	op, kind, at, cut int
	errno             syscall.Errno
	reads             bool
}

var kindNames = []string{"no fault", "fails", "fails and stays so", "is cut short", "crash"}

func (f fault) String() string {
	s := fmt.Sprintf("%s at step %d of operation %d", kindNames[f.kind], f.at, f.op+1)
	if f.kind == flt.Short || f.kind == flt.Crash {
		s += fmt.Sprintf(" after %d bytes", f.cut)
	} else {
		s += fmt.Sprintf(" with %v", f.errno)
	}
	return s
}

type storeRun struct {
	r      *hk.Run
	m      go808.MultipartFile
	bl     belief
	size   int
	faults []fault
	hits   []bool
	step   int
}

func (x *storeRun) content(seq int) []byte {
	x.step++
	n := contentLens[x.step%len(contentLens)]
	if x.size > 0 {
		n = x.size + x.step
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(x.step*16 + seq + i*3 + i>>8)
	}
	return b
}

// do runs one call under the fault meant for operation i, if any.
func (x *storeRun) do(what string, i int, f func()) (hit bool, kind int, err error) {
	for j, ft := range x.faults {
		if ft.op == i {
			err = hk.NoPanic(what, func() {
				hit, _ = flt.Inject(ft.kind, ft.at, ft.cut, ft.errno, ft.reads, f)
			})
			flt.Off()
			if hit {
				x.hits[j] = true
			}
			x.r.Ops(1)
			return hit, ft.kind, err
		}
	}
	x.r.Ops(1)
	return false, 0, hk.NoPanic(what, f)
}

func (x *storeRun) write(i, seq int) error {
	b := x.content(seq)
	var werr error
	hit, kind, err := x.do("Write", i, func() { werr = x.m.Write(uint16(seq), b) })
	if err != nil {
		return err
	}
	a := &x.bl[seq-1]
	switch {
	case hit && kind == flt.Crash:
		*a = a.with(b)
	case werr == nil:
		*a = alt{b}
	case !hit:
		return fmt.Errorf("storing packet %d fails without a fault: %v", seq, werr)
	default: // told so; nothing of it may show
		*a = a.with(nil)
	}
	return nil
}

// full asks and narrows; i < 0: without fault.
func (x *storeRun) full(i int) (bool, error) {
	var got bool
	hit, kind, err := x.do("IsFull", i, func() { got = x.m.IsFull() })
	if err != nil {
		return false, err
	}
	if hit && kind == flt.Crash {
		return false, nil
	}
	can, must := true, true
	for _, a := range x.bl {
		can = can && len(a.present()) > 0
		must = must && !a.absent()
	}
	if got && !can {
		return false, fmt.Errorf("complete although it cannot be: %v", x.bl)
	}
	if !got && must && !hit {
		return false, fmt.Errorf("not complete although every packet is stored: %v", x.bl)
	}
	if got {
		for k, a := range x.bl {
			x.bl[k] = a.present()
		}
	}
	return got, nil
}

// merge asks whether the upload is complete and merges it then.
func (x *storeRun) merge(i int) error {
	ok, err := x.full(-1)
	if err != nil || !ok {
		return err
	}
	var rc io.ReadCloser
	var merr error
	hit, kind, err := x.do("Merge", i, func() { rc, merr = x.m.Merge() })
	if err != nil {
		return err
	}
	if hit && kind == flt.Crash {
		if merr == nil && rc != nil {
			rc.Close()
		}
		for k := range x.bl {
			x.bl[k] = x.bl[k].with(nil)
		}
		return nil
	}
	if merr != nil {
		if !hit {
			return fmt.Errorf("Merge of a complete upload fails: %v", merr)
		}
		return nil // the upload stays
	}
	got, err := readAll(rc)
	if err != nil {
		return fmt.Errorf("reading the merged upload fails: %v", err)
	}
	if !x.bl.merged(got) {
		if len(got) > 40 {
			got = got[:40]
		}
		return fmt.Errorf("merged content %x... from %v", got, x.bl)
	}
	for k := range x.bl {
		if hit { // some packets may have been impossible to remove
			x.bl[k] = x.bl[k].with(nil)
		} else {
			x.bl[k] = alt{nil}
		}
	}
	return nil
}

// history runs letters 1..9 (store), M (merge if complete), Q (ask) and then repairs the upload.
func (x *storeRun) history(h string) error {
	x.bl = make(belief, x.m.Sum)
	for i := range x.bl {
		x.bl[i] = alt{nil}
	}
	x.hits = make([]bool, len(x.faults))
	// another upload of the terminal, of which nothing may get lost
	other := x.m
	other.Tag, other.Sum = 77, 2
	if err := other.Write(2, []byte("other")); err != nil {
		return err
	}
	for i := 0; i < len(h); i++ {
		var err error
		switch h[i] {
		case 'M':
			err = x.merge(i)
		case 'Q':
			_, err = x.full(i)
		default:
			err = x.write(i, int(h[i]-'0'))
		}
		if err != nil {
			return fmt.Errorf("operation %d: %v", i+1, err)
		}
		if x.m.Sum > 0 && h[i] != 'Q' {
			if _, err := x.full(-1); err != nil {
				return fmt.Errorf("after operation %d: %v", i+1, err)
			}
		}
	}
	for s := 1; s <= int(x.m.Sum); s++ {
		if err := x.write(-1, s); err != nil {
			return fmt.Errorf("afterwards: %v", err)
		}
		if s < int(x.m.Sum) {
			if _, err := x.full(-1); err != nil {
				return fmt.Errorf("afterwards: %v", err)
			}
		}
	}
	if ok, err := x.full(-1); err != nil || !ok {
		return fmt.Errorf("afterwards, all packets stored again: %v %v", ok, err)
	}
	if err := x.merge(-1); err != nil {
		return fmt.Errorf("afterwards: %v", err)
	}
	if ok, err := x.full(-1); err != nil || ok {
		return fmt.Errorf("afterwards, merged: complete %v %v", ok, err)
	}
	if err := other.Write(1, []byte("the ")); err != nil {
		return err
	}
	if !other.IsFull() {
		return fmt.Errorf("another upload has lost a packet")
	}
	rc, err := other.Merge()
	if err != nil {
		return fmt.Errorf("another upload: %v", err)
	}
	if got, err := readAll(rc); err != nil || string(got) != "the other" {
		return fmt.Errorf("another upload is merged to %q (%v)", got, err)
	}
	return nil
}

func histories(letters string, n int) []string {
	out := []string{}
	cur := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, h := range cur {
			for _, l := range letters {
				next = append(next, h+string(l))
			}
		}
		cur = next
	}
	for _, h := range cur {
		if !strings.Contains(h, "QQ") && !strings.Contains(h, "MM") {
			out = append(out, h)
		}
	}
	return out
}

type plan struct {
	name  string
	sum   int
	hs    []string
	size  int
	pairs bool // two faults
}

func faultFamilies(r *hk.Run, prefix string, plans []plan, kinds []fault) {
	scr = newScratch()
	defer scr.close()
	for _, p := range plans {
		f := r.Family(prefix + p.name)
		for _, h := range p.hs {
			for op := range h {
				for op2 := op; op2 < len(h); op2++ {
					if op2 > op && !p.pairs {
						break
					}
					if op2 == op && p.pairs {
						continue
					}
					for _, k := range kinds {
						h, op, op2, k, p := h, op, op2, k, p
						f.Case(func() string {
							return fmt.Sprintf("total %d, %s, operation %d (%d): %s %v cut %d", p.sum, h, op+1, op2+1, kindNames[k.kind], k.errno, k.cut)
						}, func() error {
							// every step of the operation
							for at := 1; at < 5000; at++ {
								any := false
								last := 1
								if p.pairs {
									last = 5000
								}
								for at2 := 1; at2 <= last; at2++ {
									scr.next()
									x := &storeRun{r: r, size: p.size, m: go808.MultipartFile{IccID: 13800138000, MsgID: 0x0801, Tag: 7, Sum: uint16(p.sum)}}
									a := k
									a.op, a.at = op, at
									x.faults = []fault{a}
									if p.pairs {
										b := k
										b.op, b.at = op2, at2
										x.faults = append(x.faults, b)
									}
									err := x.history(h)
									flt.Off()
									r.State([]byte(fmt.Sprint(p.sum, p.size, h, x.faults)))
									if err != nil {
										return fmt.Errorf("%v: %v", x.faults, err)
									}
									any = any || x.hits[0]
									if p.pairs && !x.hits[1] {
										break
									}
								}
								if !any {
									break
								}
							}
							return nil
						})
					}
				}
			}
		}
	}
}

func c18f(r *hk.Run) {
	n := r.Pick(1, 3)
	plans := []plan{
		{name: "one", sum: 1, hs: histories("1MQ", 4+n)},
		{name: "two", sum: 2, hs: histories("12M", 4+n)},
		{name: "three", sum: 3, hs: []string{"123M", "321M", "1232M", "1123M", "12M3M", "123M1", "123M123M", "23M1M"}},
		{name: "large", sum: 2, size: 40000, hs: []string{"12M", "21M", "122M", "12M12M"}},
		{name: "two-faults", sum: 2, hs: append([]string{"12M", "21M", "112M", "122M", "12M12M"}, pickHs(r, histories("12M", 5))...), pairs: true},
	}
	var kinds []fault
	for _, e := range []syscall.Errno{syscall.EIO, syscall.ENOSPC} {
		kinds = append(kinds, fault{kind: flt.Once, errno: e}, fault{kind: flt.Stay, errno: e})
	}
	kinds = append(kinds, fault{kind: flt.Once, errno: syscall.EMFILE, reads: true}, fault{kind: flt.Once, errno: syscall.EACCES, reads: true},
		fault{kind: flt.Short, cut: 1}, fault{kind: flt.Short, cut: 0})
	faultFamilies(r, "every-step/", plans, kinds)
}

func c27s(r *hk.Run) {
	n := r.Pick(1, 2)
	plans := []plan{
		{name: "one", sum: 1, hs: histories("1M", 5+n)},
		{name: "two", sum: 2, hs: histories("12M", 5+n)},
		{name: "three", sum: 3, hs: append([]string{"123M", "321M", "1232M", "1123M", "12M3M", "123M1M", "123M123M", "23M1M"}, pickHs(r, histories("123M", 6))...)},
		{name: "large", sum: 2, size: 40000, hs: []string{"12M", "21M", "122M", "112M", "12M12M"}},
		{name: "two-crashes", sum: 2, hs: append([]string{"12M", "21M", "112M", "122M", "1122M", "12MM", "12M12M", "12M1M"}, pickHs(r, histories("12M", 5))...), pairs: true},
	}
	var kinds []fault
	for _, cut := range []int{0, 1, 4, 1 << 30} {
		kinds = append(kinds, fault{kind: flt.Crash, cut: cut, errno: syscall.EIO})
	}
	faultFamilies(r, "crash/", plans, kinds)
}

func pickHs(r *hk.Run, h []string) []string {
	if r.Thorough() {
		return h
	}
	return nil
}
