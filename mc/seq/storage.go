package main

// C16 and the storage half of C18: histories of MultipartFile operations on a scratch
// directory, with injected write faults.

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"verifmc/hk"
)

func init() {
	props["C16"] = c16
	props["C18s"] = c18s
	props["C16child"] = func(r *hk.Run) { c16Histories(r, "unprivileged/", 3); c16Missing(r, "unprivileged/") }
}

// scratch hands out fresh temporary roots below the worker's own directory.
type scratch struct {
	base string
	n    int
	used int
}

var scr *scratch

func newScratch() *scratch {
	d, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "mp")
	if err != nil {
		panic(err)
	}
	s := &scratch{base: d}
	s.next()
	return s
}
func (s *scratch) next() {
	if s.n > 0 {
		os.RemoveAll(filepath.Join(s.base, fmt.Sprint(s.n)))
	}
	s.n++
	s.used = 0
	d := filepath.Join(s.base, fmt.Sprint(s.n))
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(err)
	}
	os.Setenv("TMPDIR", d)
}
func (s *scratch) tick() {
	if s.used++; s.used > 300 {
		s.next()
	}
}
func (s *scratch) close() { os.RemoveAll(s.base) }

// upload model: packets stored since the last merge
type upKey struct {
	icc uint64
	msg uint16
	tag uint32
}
type upModel map[upKey]map[uint16][]byte

func keyOf(m go808.MultipartFile) upKey { return upKey{m.IccID, uint16(m.MsgID), m.Tag} }
func (u upModel) full(m go808.MultipartFile) bool {
	for i := 1; i <= int(m.Sum); i++ {
		if _, ok := u[keyOf(m)][uint16(i)]; !ok {
			return false
		}
	}
	return true
}
func (u upModel) store(m go808.MultipartFile, seq uint16, b []byte) {
	if u[keyOf(m)] == nil {
		u[keyOf(m)] = map[uint16][]byte{}
	}
	u[keyOf(m)][seq] = append([]byte{}, b...)
}
func (u upModel) merge(m go808.MultipartFile) []byte {
	var out []byte
	for i := 1; i <= int(m.Sum); i++ {
		out = append(out, u[keyOf(m)][uint16(i)]...)
	}
	delete(u, keyOf(m))
	return out
}

func readAll(rc io.ReadCloser) ([]byte, error) {
	b, err := io.ReadAll(rc)
	rc.Close()
	return b, err
}

// mergeCheck merges a complete upload and compares.
func mergeCheck(r *hk.Run, u upModel, m go808.MultipartFile) error {
	want := u.merge(m)
	rc, err := m.Merge()
	r.Ops(1)
	if err != nil {
		return fmt.Errorf("Merge of a complete upload fails: %v", err)
	}
	got, err := readAll(rc)
	if err != nil {
		return fmt.Errorf("reading the merged upload fails: %v", err)
	}
	if x := diffBytes(got, want); x != "" {
		return fmt.Errorf("merged content differs: %s", x)
	}
	return nil
}

type upOp struct {
	which int
	seq   int // -1: merge, -2: store every packet in descending order and merge, -3: store every packet
}

func (o upOp) String() string {
	switch o.seq {
	case -1:
		return fmt.Sprintf("merge(%c)", 'A'+o.which)
	case -2:
		return fmt.Sprintf("whole(%c)", 'A'+o.which)
	case -3:
		return fmt.Sprintf("fill(%c)", 'A'+o.which)
	}
	return fmt.Sprintf("write(%c,%d)", 'A'+o.which, o.seq)
}

var contentLens = []int{3, 1, 5, 0, 2, 7, 4, 6}

func content(step, seq int) []byte {
	n := contentLens[step%len(contentLens)]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(step*16 + seq + i*3)
	}
	return b
}

// runHistory executes the operations; merges of incomplete uploads are skipped.
func runHistory(r *hk.Run, ups []go808.MultipartFile, ops []upOp) error {
	var flat []upOp
	for _, o := range ops {
		if o.seq >= -1 {
			flat = append(flat, o)
			continue
		}
		for s := int(ups[o.which].Sum); s >= 1; s-- {
			flat = append(flat, upOp{o.which, s})
		}
		if o.seq == -2 {
			flat = append(flat, upOp{o.which, -1})
		}
	}
	ops = flat
	u := upModel{}
	ask := func() error {
		for i, m := range ups {
			var got bool
			if e := hk.NoPanic("IsFull", func() { got = m.IsFull() }); e != nil {
				return e
			}
			r.Ops(1)
			if want := u.full(m); got != want {
				return fmt.Errorf("upload %c (icc %d msg %04x tag %d total %d): IsFull = %v, want %v", 'A'+i, m.IccID, uint16(m.MsgID), m.Tag, m.Sum, got, want)
			}
		}
		return nil
	}
	if err := ask(); err != nil {
		return err
	}
	for step, o := range ops {
		m := ups[o.which]
		if o.seq < 0 {
			if !u.full(m) {
				continue
			}
			if err := mergeCheck(r, u, m); err != nil {
				return fmt.Errorf("step %d %v: %v", step, o, err)
			}
		} else {
			b := content(step, o.seq)
			if err := m.Write(uint16(o.seq), b); err != nil {
				return fmt.Errorf("step %d %v: %v", step, o, err)
			}
			for i := range b {
				b[i] = 0xee
			}
			u.store(m, uint16(o.seq), content(step, o.seq))
			r.Ops(1)
		}
		if err := ask(); err != nil {
			return fmt.Errorf("after step %d %v: %v", step, o, err)
		}
	}
	for i, m := range ups {
		if u.full(m) {
			if err := mergeCheck(r, u, m); err != nil {
				return fmt.Errorf("final merge of %c: %v", 'A'+i, err)
			}
			if err := ask(); err != nil {
				return fmt.Errorf("after the final merge of %c: %v", 'A'+i, err)
			}
		}
	}
	return nil
}

func c16Histories(r *hk.Run, prefix string, depth int) {
	type pair struct {
		name string
		a, b go808.MultipartFile
		seqA []int
		seqB []int
	}
	mp := func(icc uint64, msg uint16, tag uint32, sum uint16) go808.MultipartFile {
		return go808.MultipartFile{IccID: icc, MsgID: protocol.MsgID(msg), Tag: tag, Sum: sum}
	}
	pairs := []pair{
		{"same-but-shorter", mp(1, 0x0801, 7, 3), mp(1, 0x0801, 7, 2), []int{1, 2, 3, 0, 4}, nil},
		{"other-tag", mp(1, 0x0801, 7, 2), mp(1, 0x0801, 77, 2), []int{1, 2, 3}, []int{1, 2}},
		{"other-message", mp(1, 0x0801, 1, 2), mp(1, 0x0701, 1, 2), []int{1, 2, 3}, []int{1, 2}},
		{"other-terminal", mp(1, 0x0801, 1, 2), mp(11, 0x0801, 1, 2), []int{1, 2, 3}, []int{1, 2}},
		{"crosswise", mp(1, 1, 11, 2), mp(1, 11, 1, 2), []int{1, 2, 11}, []int{1, 2, 11}},
		{"single", mp(2, 0x0801, 0, 1), mp(2, 0x0801, 0xffffffff, 1), []int{1, 2, 0xffff}, []int{1, 0}},
		{"two-digits", mp(0, 0x0801, 0xffffffff, 10), mp(999999999999, 0x0801, 0xffffffff, 10), []int{9, 10, 1}, []int{10}},
	}
	type pick struct {
		pair
		whole bool
	}
	var picks []pick
	for _, p := range pairs {
		picks = append(picks, pick{p, false})
	}
	// whole uploads of the one in the middle of the other
	for _, p := range []pair{
		{"whole/shorter", mp(1, 0x0801, 7, 3), mp(1, 0x0801, 7, 2), []int{1, 2, 3}, nil},
		{"whole/shorter-by-more", mp(1, 0x0801, 7, 4), mp(1, 0x0801, 7, 1), []int{1, 2, 3, 4}, nil},
		{"whole/other-tag", mp(1, 0x0801, 7, 3), mp(1, 0x0801, 77, 2), []int{1, 2, 3}, []int{2}},
		{"whole/other-terminal", mp(1, 0x0801, 7, 3), mp(11, 0x0801, 7, 2), []int{1, 2, 3}, []int{2}},
	} {
		picks = append(picks, pick{p, true})
	}
	for _, p := range picks {
		f := r.Family(prefix + "histories/" + p.name)
		var alpha []upOp
		for _, s := range p.seqA {
			alpha = append(alpha, upOp{0, s})
		}
		for _, s := range p.seqB {
			alpha = append(alpha, upOp{1, s})
		}
		alpha = append(alpha, upOp{0, -1}, upOp{1, -1})
		if p.whole {
			alpha = append(alpha, upOp{0, -2}, upOp{1, -2}, upOp{1, -3})
		}
		var pre []upOp
		if p.a.Sum == 10 { // packets 2..8 stored beforehand, in descending order
			for s := 8; s >= 2; s-- {
				pre = append(pre, upOp{0, s})
			}
		}
		var rec func(ops []upOp)
		id := uint64(0)
		rec = func(ops []upOp) {
			if f.Stopped() {
				return
			}
			if len(ops) == depth {
				hist := append(append([]upOp{}, pre...), ops...)
				id++
				n := id
				f.Case(func() string { return fmt.Sprintf("A=%+v B=%+v %v", p.a, p.b, hist) }, func() error {
					a, b := p.a, p.b
					a.IccID += n * 100 // every history has terminals of its own
					b.IccID += n * 100
					if a.IccID == b.IccID && p.a.IccID != p.b.IccID {
						b.IccID++
					}
					r.State([]byte(p.name), []byte(fmt.Sprint(hist)))
					defer scr.tick()
					return runHistory(r, []go808.MultipartFile{a, b}, hist)
				})
				return
			}
			for _, o := range alpha {
				rec(append(ops, o))
			}
		}
		rec(nil)
	}
}

// c16Missing: questions about uploads of which nothing is stored.
func c16Missing(r *hk.Run, prefix string) {
	f := r.Family(prefix + "nothing-stored")
	for k := 0; k < 4; k++ {
		for sum := 1; sum <= 3; sum++ {
			k, sum := k, sum
			f.Case(func() string { return fmt.Sprintf("variant %d total %d", k, sum) }, func() error {
				scr.next()
				m := go808.MultipartFile{IccID: 5, MsgID: 6, Tag: 7, Sum: uint16(sum)}
				other := m
				switch k {
				case 1:
					other.Tag = 8
				case 2:
					other.MsgID = 9
				case 3:
					other.IccID = 10
				}
				if k > 0 {
					if err := other.Write(1, []byte("x")); err != nil {
						return err
					}
				}
				r.Ops(2)
				r.State([]byte(fmt.Sprint(prefix, k, sum)))
				if m.IsFull() {
					return fmt.Errorf("an upload of which nothing is stored is reported complete")
				}
				return hk.NoPanic("Merge", func() {
					if rc, err := m.Merge(); err == nil {
						rc.Close()
					}
				})
			})
		}
	}
}

func c16(r *hk.Run) {
	scr = newScratch()
	defer scr.close()
	c16Histories(r, "", r.Pick(5, 6))
	c16Missing(r, "")

	// every order of storing n packets
	f := r.Family("permutations")
	id := uint64(1 << 40)
	for n := 1; n <= r.Pick(7, 8); n++ {
		perm := make([]int, n)
		for i := range perm {
			perm[i] = i + 1
		}
		var rec func(k int)
		rec = func(k int) {
			if f.Stopped() {
				return
			}
			if k == n {
				var ops []upOp
				for _, s := range perm {
					ops = append(ops, upOp{0, s})
				}
				id++
				i := id
				f.Case(func() string { return fmt.Sprint(ops) }, func() error {
					r.State([]byte(fmt.Sprint(ops)))
					defer scr.tick()
					return runHistory(r, []go808.MultipartFile{{IccID: i, MsgID: 0x0801, Tag: 3, Sum: uint16(n)}}, ops)
				})
				return
			}
			for i := k; i < n; i++ {
				perm[k], perm[i] = perm[i], perm[k]
				rec(k + 1)
				perm[k], perm[i] = perm[i], perm[k]
			}
		}
		rec(0)
	}
	// uploads that could be mixed up: every bit and every decimal place of each part of the
	// identity, and parts whose digits join up the same
	f = r.Family("identities")
	type ident struct {
		icc uint64
		msg uint16
		tag uint32
	}
	var iccs []uint64
	var tags []uint32
	var msgs []uint16
	for b := 0; b < 39; b++ {
		iccs = append(iccs, 1<<b)
	}
	for p, v := 0, uint64(1); p < 12; p, v = p+1, v*10 {
		for d := uint64(1); d < 10; d += 4 {
			iccs = append(iccs, v*d)
		}
		iccs = append(iccs, v*10-1, 13800138000/v)
	}
	for b := 0; b < 32; b++ {
		tags = append(tags, 1<<b, 1<<b-1, ^uint32(1<<b))
	}
	for v := uint64(10); v < 1<<32; v *= 10 {
		tags = append(tags, uint32(v), uint32(v-1), uint32(3000000000/v))
	}
	for b := 0; b < 16; b++ {
		msgs = append(msgs, 1<<b, 0x0801^1<<b, 0x0701^1<<b)
	}
	var pairs [][2]ident
	base := []ident{{13800138000, 0x0801, 1}, {1, 0x0801, 0xffffffff}, {0, 0x0801, 0}, {999999999999, 0x0801, 70000}}
	for _, a := range base {
		for _, v := range iccs {
			pairs = append(pairs, [2]ident{a, {a.icc ^ v, a.msg, a.tag}}, [2]ident{a, {v, a.msg, a.tag}}, [2]ident{a, {a.icc + v, a.msg, a.tag}})
		}
		for _, v := range tags {
			pairs = append(pairs, [2]ident{a, {a.icc, a.msg, a.tag ^ v}}, [2]ident{a, {a.icc, a.msg, v}}, [2]ident{a, {a.icc, a.msg, a.tag + v}})
		}
		for _, v := range msgs {
			pairs = append(pairs, [2]ident{a, {a.icc, v, a.tag}}, [2]ident{a, {a.icc, a.msg ^ v, a.tag}})
		}
	}
	for _, d := range []string{"11111", "12345", "20481", "10101", "98765"} {
		for i := 1; i < len(d)-1; i++ {
			for j := i + 1; j < len(d); j++ {
				for k := 1; k < len(d)-1; k++ {
					for l := k + 1; l < len(d); l++ {
						n := func(s string) uint64 { v, _ := strconv.ParseUint(s, 10, 64); return v }
						pairs = append(pairs, [2]ident{{n(d[:i]), uint16(n(d[i:j])), uint32(n(d[j:]))}, {n(d[:k]), uint16(n(d[k:l])), uint32(n(d[l:]))}},
							[2]ident{{7, uint16(n(d[:i])), uint32(n(d[i:]))}, {7, uint16(n(d[:k])), uint32(n(d[k:]))}})
					}
				}
			}
		}
	}
	words := [][]upOp{
		{{0, 1}, {1, 2}, {0, 2}, {0, -1}, {1, 1}, {1, -1}},
		{{1, 2}, {0, 1}, {1, 1}, {1, -1}, {0, 2}, {0, -1}},
		{{0, 2}, {0, 1}, {1, 1}, {0, -1}, {1, 2}, {0, 1}, {1, -1}},
	}
	for _, p := range pairs {
		if p[0] == p[1] || p[1].icc > 999999999999 {
			continue
		}
		for wi, w := range words {
			p, w, wi := p, w, wi
			f.Case(func() string { return fmt.Sprint(p, w) }, func() error {
				r.State([]byte(fmt.Sprint(p, wi)))
				defer scr.tick()
				scr.next()
				return runHistory(r, []go808.MultipartFile{{IccID: p[0].icc, MsgID: protocol.MsgID(p[0].msg), Tag: p[0].tag, Sum: 2},
					{IccID: p[1].icc, MsgID: protocol.MsgID(p[1].msg), Tag: p[1].tag, Sum: 2}}, w)
			})
		}
	}
	// totals of many digits, in several orders; then a shorter upload of the same identity
	f = r.Family("totals")
	for _, n := range []int{9, 10, 11, 12, 99, 100, 101, 120, 255, 256, 257, 300, r.Pick(400, 900)} {
		for order := 0; order < 4; order++ {
			n, order := n, order
			f.Case(func() string { return fmt.Sprintf("total %d, order %d, then a shorter upload", n, order) }, func() error {
				scr.next()
				u := upModel{}
				m := go808.MultipartFile{IccID: uint64(n), MsgID: 0x0801, Tag: uint32(order), Sum: uint16(n)}
				r.State([]byte(fmt.Sprint(n, order)))
				for round := 0; round < 2; round++ {
					if round == 1 {
						m.Sum = uint16(n/2 + 1)
					}
					s := int(m.Sum)
					step := 1
					for _, c := range []int{7, 11, 13, 17} {
						if s%c != 0 {
							step = c
							break
						}
					}
					for i := 0; i < s; i++ {
						seq := i + 1
						switch order {
						case 1:
							seq = s - i
						case 2:
							seq = (i*step)%s + 1
						case 3:
							seq = (i+s/2)%s + 1
						}
						b := []byte(fmt.Sprintf("<%d.%d.%d>", round, n, seq))
						if round == 1 {
							b = b[:3]
						}
						if m.IsFull() {
							return fmt.Errorf("complete after %d of %d packets", i, s)
						}
						if err := m.Write(uint16(seq), b); err != nil {
							return err
						}
						u.store(m, uint16(seq), b)
					}
					if !m.IsFull() {
						return fmt.Errorf("not complete although all %d packets are stored", s)
					}
					if err := mergeCheck(r, u, m); err != nil {
						return err
					}
					if m.IsFull() {
						return fmt.Errorf("still complete after the merge")
					}
				}
				return nil
			})
		}
	}
	// more packets than the process may have files open, up to the largest total
	f = r.Family("many packets")
	for _, n := range []int{1500, 32768, 65535} {
		for _, fall := range []bool{false, true} {
			n, fall := n, fall
			f.Case(func() string { return fmt.Sprintf("%d packets, at most 1024 open files, falling order: %v", n, fall) }, func() error {
				scr.next()
				defer scr.next()
				r.State([]byte(fmt.Sprint(n, fall)))
				var was, lim syscall.Rlimit
				if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &was); err == nil && was.Cur > 1024 {
					lim = was
					lim.Cur = 1024
					if syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim) == nil {
						defer syscall.Setrlimit(syscall.RLIMIT_NOFILE, &was)
					}
				}
				u := upModel{}
				m := go808.MultipartFile{IccID: 13800138000, MsgID: 0x0801, Tag: uint32(n), Sum: uint16(n)}
				for i := 1; i <= n; i++ {
					seq := uint16(i)
					if fall {
						seq = uint16(n + 1 - i)
					}
					b := []byte{byte(seq), byte(seq >> 8), byte(seq)}[:1+i%3]
					if err := m.Write(seq, b); err != nil {
						return err
					}
					u.store(m, seq, b)
					if i == n-1 && m.IsFull() {
						return fmt.Errorf("complete after %d of %d packets", i, n)
					}
				}
				if !m.IsFull() {
					return fmt.Errorf("not complete although all %d packets are stored", n)
				}
				return mergeCheck(r, u, m)
			})
		}
	}
	// contents: every byte value, sizes around copy buffers, empty packets
	f = r.Family("contents")
	sizes := []int{0, 1, 255, 256, 511, 512, 513, 1023, 4095, 4096, 4097, 32767, 32768, 32769, 100000}
	for _, a := range sizes {
		for _, b := range sizes {
			a, b := a, b
			f.Case(func() string { return fmt.Sprintf("packets of %d and %d bytes, replaced by %d and %d", a, b, b, a) }, func() error {
				m := go808.MultipartFile{IccID: uint64(a), MsgID: 0x0801, Tag: uint32(b), Sum: 2}
				u := upModel{}
				scr.next()
				r.State([]byte(fmt.Sprint(a, b)))
				fill := func(n, k int) []byte {
					x := make([]byte, n)
					for i := range x {
						x[i] = byte(i*k + i>>8)
					}
					return x
				}
				for round := 0; round < 3; round++ {
					x, y := a, b
					if round == 1 {
						x, y = b, a
					}
					for _, w := range []struct {
						s uint16
						b []byte
					}{{2, fill(x, 5)}, {1, fill(x, 1)}, {2, fill(y, 3+round)}} {
						if err := m.Write(w.s, w.b); err != nil {
							return err
						}
						u.store(m, w.s, w.b)
					}
					if err := mergeCheck(r, u, m); err != nil {
						return fmt.Errorf("round %d: %v", round, err)
					}
				}
				return nil
			})
		}
	}
	// the same as an unprivileged process
	f = r.Family("unprivileged")
	f.Case(func() string { return "histories of depth 3 as uid 65534" }, func() error { return runChild(r, "C16child") })
}

// runChild re-executes this worker for another property as an unprivileged user.
func runChild(r *hk.Run, prop string) error {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "child")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(dir)
	os.Chmod(dir, 0777)
	cmd := exec.Command("/proc/self/exe", "-prop", prop, "-tier", r.Tier)
	cmd.Env = append(os.Environ(), "VERIF_CHILD_DIR="+dir)
	out, err := cmd.Output()
	if strings.Contains(string(out), "CANNOT-DROP") {
		return nil // not permitted here: covered by the privileged run only
	}
	if err != nil {
		return fmt.Errorf("unprivileged run: %v %s", err, out)
	}
	i := bytes.IndexByte(out, '{')
	if i < 0 || !bytes.Contains(out, []byte(`"done":true`)) {
		return fmt.Errorf("unprivileged run gave no report: %s", out)
	}
	if !bytes.Contains(out, []byte(`"failures":null`)) {
		s := string(out)
		if k := strings.Index(s, `"failures"`); k >= 0 {
			s = s[k:]
		}
		if len(s) > 2000 {
			s = s[:2000]
		}
		return fmt.Errorf("as an unprivileged user: %s", s)
	}
	return nil
}

// childSetup drops privileges when this process is such a child.
func childSetup() {
	dir := os.Getenv("VERIF_CHILD_DIR")
	if dir == "" {
		return
	}
	syscall.Setgroups(nil)
	if syscall.Setgid(65534) != nil || syscall.Setuid(65534) != nil || os.Getuid() != 65534 {
		fmt.Fprintln(hk.Stdout, "CANNOT-DROP")
		os.Exit(0)
	}
	os.Setenv("VERIF_SCRATCH", dir)
	syscall.Umask(022)
	scr = newScratch()
}

// ---------------------------------------------------------------- C18, storage faults

// limited runs fn with the size of files this process may write limited to k bytes.
func limited(k int, fn func()) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic(err)
	}
	lim := old
	lim.Cur = uint64(k)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		panic(err)
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	fn()
}

func c18s(r *hk.Run) {
	signal.Ignore(syscall.SIGXFSZ)
	scr = newScratch()
	defer scr.close()
	// torn writes: the k-th byte of a packet cannot be written
	f := r.Family("storage/torn-write")
	for _, l := range []int{1, 2, 3, 5, 8, 16, 100, 1000, 5000} {
		for k := 0; k < l; k++ {
			if l > 16 && k > 3 && k < l-3 && k%(l/8) != 0 && k != 4096 && k != 512 {
				continue
			}
			for _, sum := range []int{1, 2, 3} {
				for at := 1; at <= sum; at++ {
					for earlier := 0; earlier < 2; earlier++ {
						for tries := 1; tries <= 2; tries++ {
							l, k, sum, at, earlier, tries := l, k, sum, at, earlier, tries
							f.Case(func() string {
								return fmt.Sprintf("packet %d/%d of %d bytes fails after %d bytes (%d times), stored before: %d", at, sum, l, k, tries, earlier)
							}, func() error {
								scr.tick()
								r.State([]byte(fmt.Sprint(l, k, sum, at, earlier, tries)))
								m := go808.MultipartFile{IccID: uint64(l*10000 + k), MsgID: protocol.MsgID(sum*16 + at), Tag: uint32(earlier*8 + tries), Sum: uint16(sum)}
								u := upModel{}
								for s := 1; s <= sum; s++ {
									if s != at || earlier == 1 {
										b := []byte(fmt.Sprintf("[%d]", s))
										if err := m.Write(uint16(s), b); err != nil {
											return err
										}
										u.store(m, uint16(s), b)
									}
								}
								b := bytes.Repeat([]byte{0x5a}, l)
								stored := false
								for t := 0; t < tries; t++ {
									var err error
									if e := hk.NoPanic("Write", func() { limited(k, func() { err = m.Write(uint16(at), b) }) }); e != nil {
										return e
									}
									r.Ops(1)
									if err == nil {
										stored = true
										u.store(m, uint16(at), b)
									}
								}
								full := m.IsFull()
								if !stored && earlier == 0 && full {
									return fmt.Errorf("a packet that could not be stored counts as stored")
								}
								if full {
									if err := mergeCheck(r, u, m); err != nil {
										return fmt.Errorf("after the failed write: %v", err)
									}
									for s := 1; s <= sum; s++ {
										if s != at {
											m.Write(uint16(s), []byte("again"))
											u.store(m, uint16(s), []byte("again"))
										}
									}
								}
								// the retransmission repairs the upload
								if err := m.Write(uint16(at), b); err != nil {
									return fmt.Errorf("retransmission fails: %v", err)
								}
								u.store(m, uint16(at), b)
								if !m.IsFull() {
									return fmt.Errorf("not complete after the retransmission")
								}
								return mergeCheck(r, u, m)
							})
						}
					}
				}
			}
		}
	}
	// merging fails while writing the merged file: the upload survives and can be merged later
	f = r.Family("storage/torn-merge")
	for _, l := range []int{1, 3, 10, 100} {
		for k := 0; k < 2*l; k++ {
			l, k := l, k
			if l == 100 && k%7 != 0 {
				continue
			}
			f.Case(func() string { return fmt.Sprintf("merge of 2x%d bytes fails after %d bytes", l, k) }, func() error {
				scr.tick()
				r.State([]byte(fmt.Sprint("merge", l, k)))
				m := go808.MultipartFile{IccID: uint64(l*1000 + k), MsgID: 1, Tag: 1, Sum: 2}
				u := upModel{}
				for s := 1; s <= 2; s++ {
					b := bytes.Repeat([]byte{byte('a' + s)}, l)
					if err := m.Write(uint16(s), b); err != nil {
						return err
					}
					u.store(m, uint16(s), b)
				}
				var rc io.ReadCloser
				var err error
				if e := hk.NoPanic("Merge", func() { limited(k, func() { rc, err = m.Merge() }) }); e != nil {
					return e
				}
				r.Ops(1)
				if err == nil { // then it must be whole
					got, err := readAll(rc)
					if want := u.merge(m); err != nil || !bytes.Equal(got, want) {
						return fmt.Errorf("a merge that could not be written yields %d of %d bytes without an error", len(got), len(want))
					}
					return nil
				}
				if !m.IsFull() {
					return fmt.Errorf("a failed merge lost the upload")
				}
				return mergeCheck(r, u, m)
			})
		}
	}
	// the directory cannot be used, disappears, comes back
	f = r.Family("storage/directory")
	for sum := 1; sum <= 3; sum++ {
		for at := 0; at < sum; at++ {
			for kind := 0; kind < 4; kind++ {
				sum, at, kind := sum, at, kind
				f.Case(func() string { return fmt.Sprintf("fault %d before packet %d of %d", kind, at+1, sum) }, func() error {
					scr.next()
					dir := os.Getenv("TMPDIR")
					defer os.Setenv("TMPDIR", dir)
					r.State([]byte(fmt.Sprint("dir", sum, at, kind)))
					m := go808.MultipartFile{IccID: 9, MsgID: 8, Tag: 7, Sum: uint16(sum)}
					u := upModel{}
					put := func(s int) error {
						b := []byte(fmt.Sprintf("(%d)", s))
						if err := m.Write(uint16(s), b); err != nil {
							return err
						}
						u.store(m, uint16(s), b)
						return nil
					}
					for s := 1; s <= at; s++ {
						if err := put(s); err != nil {
							return err
						}
					}
					lost := false
					switch kind {
					case 0: // temporary directory is a file
						p := filepath.Join(scr.base, "plainfile")
						os.WriteFile(p, nil, 0644)
						os.Setenv("TMPDIR", p)
					case 1: // path through a file
						p := filepath.Join(scr.base, "plainfile")
						os.WriteFile(p, nil, 0644)
						os.Setenv("TMPDIR", filepath.Join(p, "sub"))
					case 2: // everything below disappears
						os.RemoveAll(dir)
						os.MkdirAll(dir, 0755)
						lost = true
					case 3: // the temporary directory itself disappears
						os.RemoveAll(dir)
						lost = true
					}
					if lost {
						u = upModel{}
					}
					var err error
					if e := hk.NoPanic("Write", func() { err = m.Write(uint16(at+1), []byte("faulty")) }); e != nil {
						return e
					}
					if (kind == 0 || kind == 1) && err == nil {
						return fmt.Errorf("storing into an unusable directory is reported as success")
					}
					if err == nil {
						u.store(m, uint16(at+1), []byte("faulty"))
					}
					var full bool
					if e := hk.NoPanic("IsFull", func() { full = m.IsFull() }); e != nil {
						return e
					}
					if kind <= 1 && full {
						return fmt.Errorf("complete although nothing can be read")
					}
					if e := hk.NoPanic("Merge", func() {
						if !full {
							return
						}
					}); e != nil {
						return e
					}
					os.Setenv("TMPDIR", dir)
					os.MkdirAll(dir, 0755)
					if got, want := m.IsFull(), u.full(m); got != want {
						return fmt.Errorf("after the fault: IsFull = %v, want %v", got, want)
					}
					for s := 1; s <= sum; s++ {
						if err := put(s); err != nil {
							return fmt.Errorf("retransmission: %v", err)
						}
					}
					r.Ops(4)
					return mergeCheck(r, u, m)
				})
			}
		}
	}
}
