package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"verifmc/rt"
)

// evUpload is a dispatched upload with the content its handler read.
type evUpload struct {
	Icc    uint64
	Sess   *go808.Session
	Serial uint16
	Tag    uint32
	Data   string
	Err    error
}

func uploads() []evUpload {
	var out []evUpload
	for _, e := range rt.Events() {
		if u, ok := e.(evUpload); ok {
			out = append(out, u)
		}
	}
	return out
}

func (e *env) handleUploads() {
	e.srv.AddHandler(idMedia, func(s *go808.Session, m *protocol.Message) {
		b, ok := m.Body.(*protocol.T808_0x0801)
		if !ok {
			rt.Fail("an upload is dispatched with a %T", m.Body)
		}
		u := evUpload{Icc: m.Header.IccID, Sess: s, Serial: m.Header.MsgSerialNo, Tag: b.MediaID}
		if b.Packet != nil {
			var d []byte
			d, u.Err = io.ReadAll(b.Packet)
			u.Data = string(d)
		}
		rt.Log(u)
	})
}

// store is the model of the stored packets of uploads.
type store map[[2]uint64]map[uint16]string

// put stores a packet; it returns the content if the upload is now complete, and forgets it.
func (st store) put(icc uint64, tag uint32, sum, seq uint16, data string) (string, bool) {
	k := [2]uint64{icc, uint64(tag)}
	if st[k] == nil {
		st[k] = map[uint16]string{}
	}
	st[k][seq] = data
	return st.full(icc, tag, sum)
}

func (st store) full(icc uint64, tag uint32, sum uint16) (string, bool) {
	k := [2]uint64{icc, uint64(tag)}
	var b strings.Builder
	for i := uint16(1); i <= sum; i++ {
		d, ok := st[k][i]
		if !ok {
			return "", false
		}
		b.WriteString(d)
	}
	return b.String(), true
}

func (st store) forget(icc uint64, tag uint32) { delete(st, [2]uint64{icc, uint64(tag)}) }

// contents of packets: short, empty, escapes, binary, long
func content(serial uint16) string {
	base := fmt.Sprintf("<%d>", serial)
	switch serial % 5 {
	case 1:
		return base + "~}\x7d\x02\x00\xff"
	case 2:
		return ""
	case 3:
		return base + strings.Repeat("z", 800)
	}
	return base
}

// expect is what must have happened.
type expect struct {
	ups   []evUpload
	reps  map[*peer][][]byte
	beats int
}

func (x *expect) check() {
	got := uploads()
	for i, u := range got {
		if i >= len(x.ups) {
			rt.Fail("upload %d of terminal %d is delivered although nothing was completed", u.Tag, u.Icc)
		}
		w := x.ups[i]
		if u.Err != nil || u.Icc != w.Icc || u.Serial != w.Serial || u.Tag != w.Tag {
			rt.Fail("delivery %d: terminal %d upload %d by message %d (%v); expected terminal %d upload %d by message %d", i, u.Icc, u.Tag, u.Serial, u.Err, w.Icc, w.Tag, w.Serial)
		}
		if u.Data != w.Data {
			rt.Fail("delivery %d: upload %d contains %q instead of %q", i, u.Tag, u.Data, w.Data)
		}
	}
	if len(got) != len(x.ups) {
		rt.Fail("%d uploads delivered instead of %d", len(got), len(x.ups))
	}
	for p, reps := range x.reps {
		r := replies(p.wire())
		for i := range r {
			if i >= len(reps) || !bytes.Equal(r[i], reps[i]) {
				rt.Fail("reply %d to terminal %d is %x; expected %x", i, p.icc, r[i], reps)
			}
		}
		if len(r) != len(reps) {
			rt.Fail("%d replies to terminal %d instead of %d", len(r), p.icc, len(reps))
		}
	}
	if n := len(handled(0)); n != x.beats {
		rt.Fail("%d other messages handled instead of %d", n, x.beats)
	}
}

// c17step sends one message of an alphabet and extends the expectation.
//
//	1..4  packet of the main upload (terminal p, tag 7)
//	a, b  packet 1, 2 of another upload of the terminal (tag 70, two packets)
//	A, B  packet 1, 2 of the same tag of another terminal (two packets)
//	m     an upload in one message, without the sub-packet flag
//	h, x  heartbeat; message of unknown type
func c17step(c byte, sum uint16, p, q *peer, merge bool, st store, x *expect) {
	pkt := func(p *peer, tag uint32, sum, seq uint16) {
		d := content(p.serial + 1)
		no := p.pkt(idMedia, sum, seq, media(tag, d))
		if !merge {
			x.ups = append(x.ups, evUpload{Icc: p.icc, Serial: no, Tag: tag, Data: d})
			return
		}
		x.reps[p] = append(x.reps[p], general(no, idMedia, 0))
		if all, ok := st.put(p.icc, tag, sum, seq, d); ok {
			x.ups = append(x.ups, evUpload{Icc: p.icc, Serial: no, Tag: tag, Data: all})
			st.forget(p.icc, tag)
		}
	}
	switch c {
	case 'a', 'b':
		pkt(p, 70, 2, uint16(c-'a'+1))
	case 'A', 'B':
		pkt(q, 7, 2, uint16(c-'A'+1))
	case 'm':
		d := content(p.serial + 1)
		no := p.msg(idMedia, media(7, d))
		x.ups = append(x.ups, evUpload{Icc: p.icc, Serial: no, Tag: 7, Data: d})
	case 'h':
		p.msg(idHeartbeat, nil)
		x.beats++
	case 'x':
		no := p.msg(idUnknown, []byte{1})
		x.reps[p] = append(x.reps[p], general(no, idUnknown, 3))
	default:
		pkt(p, 7, sum, uint16(c-'0'))
	}
}

func init() {
	signal.Ignore(syscall.SIGXFSZ)
	props["C17"] = func(tier string) []Scen {
		var out []Scen
		add := func(fam, name string, bound int, run func()) {
			out = append(out, Scen{Fam: fam, Name: name, Bound: bound, Run: run})
		}
		history := func(w string, sum uint16, merge, burst bool) func() {
			return func() {
				files()
				e := start(go808.Options{AutoMergePacket: merge})
				e.handleUploads()
				e.handle(idHeartbeat)
				p, q := e.connect(13800138000), e.connect(13900139000)
				st := store{}
				x := &expect{reps: map[*peer][][]byte{p: nil, q: nil}}
				two := strings.ContainsAny(w, "AB")
				for i := 0; i < len(w); i++ {
					c17step(w[i], sum, p, q, merge, st, x)
					if !burst || two {
						rt.Idle()
						if !burst {
							x.check()
						}
					}
				}
				rt.Idle()
				x.check()
				if p.ServerClosed() || q.ServerClosed() {
					rt.Fail("a connection was closed")
				}
			}
		}
		for _, a := range []struct {
			sum   uint16
			alpha string
			n     int
		}{{1, "1h", 4}, {2, "12", pick(tier, 7, 9)}, {3, "123", pick(tier, 6, 7)}, {4, "1234", pick(tier, 5, 6)}, {2, "12abh", pick(tier, 5, 6)}, {2, "12AB", pick(tier, 5, 6)}, {2, "12mx", pick(tier, 4, 5)}, {3, "123abAB", pick(tier, 3, 4)}} {
			for i, w := range words(a.alpha, a.n) {
				for _, merge := range []bool{true, false} {
					if !merge && len(w) > 3 {
						continue
					}
					burst := i%2 == 0
					add("histories", fmt.Sprintf("up-%d-%s-%v", a.sum, w, merge)+a.alpha[len(a.alpha)-1:], 0, history(w, a.sum, merge, burst))
				}
			}
		}
		// all orders of more packets, repeated twice
		for n := 4; n <= pick(tier, 5, 6); n++ {
			for pi, perm := range perms(n) {
				n, perm := n, perm
				add("orders", fmt.Sprintf("order-%d-%d", n, pi), 0, func() {
					w := ""
					for _, i := range perm {
						w += string(rune('1' + i))
					}
					history(w+w, uint16(n), true, true)()
				})
			}
		}
		// many packets: numerical order
		for _, n := range []int{10, 11, 12, 20, 101} {
			for _, dir := range []string{"up", "down", "odd"} {
				n, dir := n, dir
				add("many", fmt.Sprintf("many-%d-%s", n, dir), 0, func() {
					files()
					e := start(go808.Options{AutoMergePacket: true})
					e.handleUploads()
					p := e.connect(13800138000)
					st := store{}
					x := &expect{reps: map[*peer][][]byte{p: nil}}
					for i := 0; i < n; i++ {
						k := i
						switch dir {
						case "down":
							k = n - 1 - i
						case "odd":
							k = i * 7 % n
							if n%7 == 0 {
								k = i
							}
						}
						d := content(p.serial + 1)
						no := p.pkt(idMedia, uint16(n), uint16(k+1), media(7, d))
						x.reps[p] = append(x.reps[p], general(no, idMedia, 0))
						if all, ok := st.put(p.icc, 7, uint16(n), uint16(k+1), d); ok {
							x.ups = append(x.ups, evUpload{Icc: p.icc, Serial: no, Tag: 7, Data: all})
							st.forget(p.icc, 7)
						}
						rt.Idle()
					}
					x.check()
				})
			}
		}
		// tags and terminals whose numbers could be mixed up
		type id struct {
			icc uint64
			tag uint32
		}
		for i, v := range [][2]id{{{13800138000, 1}, {13800138000, 11}}, {{13800138000, 0}, {13800138000, 0xffffffff}}, {{13800138000, 0x80000000}, {13800138000, 0}},
			{{1, 7}, {11, 7}}, {{1, 1}, {11, 11}}, {{999999999999, 7}, {99999999999, 7}}, {{13800138000, 2049}, {13800138000, 1}}, {{13800138000, 7}, {13800138000 + 1<<32, 7}}, {{13800138000, 7}, {13800138000, 7 + 1<<16}}} {
			v := v
			for j, w := range words("12ab", 4) {
				if len(w) < 3 {
					continue
				}
				w := w
				add("identity", fmt.Sprintf("identity-%d-%d", i, j), 0, func() {
					files()
					e := start(go808.Options{AutoMergePacket: true})
					e.handleUploads()
					p, q := e.connect(v[0].icc), e.connect(v[1].icc)
					st := store{}
					x := &expect{reps: map[*peer][][]byte{p: nil, q: nil}}
					for k := 0; k < len(w); k++ {
						t, seq, who := p, uint16(w[k]-'0'), v[0]
						if w[k] >= 'a' {
							t, seq, who = q, uint16(w[k]-'a'+1), v[1]
						}
						d := content(t.serial + 1)
						no := t.pkt(idMedia, 2, seq, media(who.tag, d))
						x.reps[t] = append(x.reps[t], general(no, idMedia, 0))
						if all, ok := st.put(who.icc, who.tag, 2, seq, d); ok {
							x.ups = append(x.ups, evUpload{Icc: who.icc, Serial: no, Tag: who.tag, Data: all})
							st.forget(who.icc, who.tag)
						}
						rt.Idle()
					}
					x.check()
				})
			}
		}
		// two uploads at the same time on two connections
		for _, v := range []string{"terminals", "tags"} {
			for wi, w := range [][2]string{{"12", "12"}, {"21", "12"}, {"112", "21"}, {"1212", "12"}} {
				v, w := v, w
				add("concurrent", fmt.Sprintf("concurrent-%s-%d", v, wi), pick(tier, 2, 3), func() {
					files()
					e := start(go808.Options{AutoMergePacket: true})
					rt.Quiet(true)
					e.handleUploads()
					rt.Quiet(false)
					icc2, tag2 := uint64(13900139000), uint32(7)
					if v == "tags" {
						icc2, tag2 = 13800138000, 8
					}
					p, q := e.connect(13800138000), e.connect(icc2)
					q.serial = 100
					type exp struct {
						tag  uint32
						data string
						n    int
					}
					for k, t := range []*peer{p, q} {
						tag := []uint32{7, tag2}[k]
						for _, c := range w[k] {
							t.pkt(idMedia, 2, uint16(c-'0'), media(tag, content(t.serial+1)))
						}
					}
					rt.Idle()
					for k, t := range []*peer{p, q} {
						tag := []uint32{7, tag2}[k]
						st := store{}
						var want []string
						no := uint16(100 * k)
						var reps [][]byte
						for _, c := range w[k] {
							no++
							reps = append(reps, general(no, idMedia, 0))
							if all, ok := st.put(t.icc, tag, 2, uint16(c-'0'), content(no)); ok {
								want = append(want, all)
								st.forget(t.icc, tag)
							}
						}
						var got []string
						for _, u := range uploads() {
							if u.Tag == tag && u.Icc == t.icc && (u.Serial > 100) == (k == 1) {
								got = append(got, u.Data)
							}
						}
						if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
							rt.Fail("uploads %d of terminal %d delivered as %q instead of %q", tag, t.icc, got, want)
						}
						r := replies(t.wire())
						if fmt.Sprintf("%x", r) != fmt.Sprintf("%x", reps) {
							rt.Fail("terminal %d got replies %x instead of %x", t.icc, r, reps)
						}
					}
					if len(uploads()) > 3 {
						rt.Fail("%d uploads delivered", len(uploads()))
					}
				})
			}
		}
		// the terminal reconnects in the middle
		for _, how := range []string{"fin", "reset", "app", "junk"} {
			how := how
			add("reconnect", "reconnect-"+how, 1, func() {
				files()
				e := start(go808.Options{AutoMergePacket: true})
				e.handleUploads()
				p, s := e.session(13800138000)
				p.pkt(idMedia, 3, 1, media(7, "one"))
				p.pkt(idMedia, 3, 3, media(7, "three"))
				rt.Idle()
				act(how, e, p, s)
				rt.Idle()
				q, _ := e.session(13800138000)
				q.serial = 50
				q.pkt(idMedia, 3, 2, media(7, "two"))
				rt.Idle()
				us := uploads()
				if len(us) != 1 || us[0].Data != "onetwothree" || us[0].Serial != 51 {
					rt.Fail("an upload continued on a new connection is delivered as %v", us)
				}
			})
		}
		// no handler, a handler added later, a panicking handler, one that does not read
		for _, k := range []string{"none", "late", "panic", "noread"} {
			k := k
			add("handlers", "upload-handler-"+k, 1, func() {
				files()
				e := start(go808.Options{AutoMergePacket: true})
				p, s := e.session(13800138000)
				switch k {
				case "panic":
					e.srv.AddHandler(idMedia, panicHandler)
				case "noread":
					e.srv.AddHandler(idMedia, func(*go808.Session, *protocol.Message) { rt.Log(evUpload{}) })
				}
				p.pkt(idMedia, 2, 2, media(7, "B"))
				p.pkt(idMedia, 2, 1, media(7, "A"))
				rt.Idle()
				e.handleUploads()
				p.pkt(idMedia, 2, 2, media(7, "bb"))
				rt.Idle()
				n := 0
				if k == "noread" {
					n = 1
				}
				if len(uploads()) != n {
					rt.Fail("%d uploads delivered", len(uploads()))
				}
				p.pkt(idMedia, 2, 1, media(7, "aa"))
				rt.Idle()
				us := uploads()
				if len(us) != n+1 || us[n].Data != "aabb" {
					rt.Fail("the second upload is delivered as %v", us)
				}
				if len(replies(p.wire())) != 4 {
					rt.Fail("%d of 4 packets acknowledged", len(replies(p.wire())))
				}
				alive(p, s)
			})
		}
		return out
	}

	props["C18"] = func(tier string) []Scen {
		var out []Scen
		add := func(fam, name string, bound int, run func()) {
			out = append(out, Scen{Fam: fam, Name: name, Bound: bound, Run: run})
		}
		data := func(no uint16) string { return fmt.Sprintf("<%d>", no) + strings.Repeat("d", 60) }
		// letters: packet number, then fault
		faults := "nrips"
		for _, sum := range []uint16{1, 2, 3} {
			maxLen := []int{0, 3, pick(tier, 4, 5), pick(tier, 3, 4)}[sum]
			var letters []string
			for s := uint16(1); s <= sum; s++ {
				for _, f := range faults {
					letters = append(letters, fmt.Sprintf("%d%c", s, f))
				}
			}
			var hs [][]string
			cur := [][]string{{}}
			for i := 0; i < maxLen; i++ {
				var next [][]string
				for _, h := range cur {
					for _, l := range letters {
						next = append(next, append(append([]string{}, h...), l))
					}
				}
				hs = append(hs, next...)
				cur = next
			}
			for _, h := range hs {
				sum, h := sum, h
				add("fault-histories", fmt.Sprintf("fault-%d-%s", sum, strings.Join(h, "")), 0, func() {
					files()
					e := start(go808.Options{AutoMergePacket: true})
					e.handleUploads()
					p, s := e.session(13800138000)
					rt.Quiet(true)
					st := store{}
					pending := false // complete, but merging failed
					step := func(seq uint16, fault byte) {
						no := p.serial + 1
						d := data(no)
						ru, rr := len(uploads()), len(replies(p.wire()))
						with(fault, p.icc, len(d), func() {
							p.pkt(idMedia, sum, seq, media(7, d))
							rt.Idle()
						})
						if p.ServerClosed() {
							rt.Fail("the connection was closed by a storage fault")
						}
						rs := replies(p.wire())[rr:]
						us := uploads()[ru:]
						if len(rs) != 1 || !bytes.Equal(rs[0][:4], general(no, idMedia, 0)[:4]) {
							rt.Fail("packet %d is answered with %x", no, rs)
						}
						stored := rs[0][4] == 0
						if !stored && rs[0][4] != 1 {
							rt.Fail("packet %d is answered with result %d", no, rs[0][4])
						}
						if stored && (fault == 'r' || fault == 's' || fault == 'p') {
							rt.Fail("a packet that could not be stored was acknowledged")
						}
						if !stored && fault == 'n' {
							rt.Fail("a packet was refused although storage works")
						}
						if !stored {
							if len(us) != 0 {
								rt.Fail("an upload was delivered with a packet that was not stored")
							}
							return
						}
						all, ok := st.put(p.icc, 7, sum, seq, d)
						_ = pending
						if !ok && len(us) > 0 {
							rt.Fail("an incomplete upload was delivered: %q", us[0].Data)
						}
						if ok && fault == 'n' && len(us) != 1 {
							rt.Fail("a complete upload was delivered %d times", len(us))
						}
						for _, u := range us {
							if u.Data != all || u.Err != nil || u.Tag != 7 {
								rt.Fail("upload delivered as %q (%v) instead of %q", u.Data, u.Err, all)
							}
							st.forget(p.icc, 7)
						}
					}
					for _, l := range h {
						step(uint16(l[0]-'0'), l[1])
					}
					// repair: retransmit what is missing
					for i := uint16(1); i <= sum; i++ {
						if _, ok := st[[2]uint64{p.icc, 7}][i]; !ok {
							step(i, 'n')
						}
					}
					rt.Quiet(false)
					alive(p, s)
				})
			}
		}
		// merging fails: the result cannot be written, or cannot be written completely
		for _, how := range []string{"dir", "m"} {
			for _, sum := range []uint16{1, 2, 3} {
				how, sum := how, sum
				add("merge-faults", fmt.Sprintf("merge-%s-%d", how, sum), 1, func() {
					files()
					e := start(go808.Options{AutoMergePacket: true})
					rt.Quiet(true)
					e.handleUploads()
					p, s := e.session(13800138000)
					var want string
					for i := uint16(1); i < sum; i++ {
						d := data(p.serial + 1)
						want += d
						p.pkt(idMedia, sum, i, media(7, d))
					}
					rt.Idle()
					rt.Quiet(false)
					d := data(p.serial + 1)
					want += d
					fault := byte('m')
					if how == "dir" {
						fault = 'f'
					}
					with(fault, p.icc, len(d), func() {
						p.pkt(idMedia, sum, sum, media(7, d))
						p.msg(idHeartbeat, nil)
						rt.Idle()
					})
					us := uploads()
					for _, u := range us {
						if u.Data != want || u.Err != nil {
							rt.Fail("merging failed, but an upload was delivered: %q", u.Data)
						}
					}
					if n := len(handled(0)); n != 2 {
						rt.Fail("the session handled %d heartbeats instead of 2", n)
					}
					alive(p, s)
					if len(us) == 0 && len(replies(p.wire())) == int(sum) {
						// retransmit the last packet
						k := len(uploads())
						p.pkt(idMedia, sum, sum, media(7, d))
						rt.Idle()
						us := uploads()[k:]
						if len(us) != 1 || us[0].Data != want {
							rt.Fail("after a failed merge a retransmission does not complete the upload: %v", us)
						}
					}
				})
			}
		}
		// faults of one terminal's storage do not affect another's
		for _, fault := range "if" {
			fault := byte(fault)
			add("other-terminal", "other-"+string(rune(fault)), 1, func() {
				files()
				e := start(go808.Options{AutoMergePacket: true})
				rt.Quiet(true)
				e.handleUploads()
				rt.Quiet(false)
				p, q := e.connect(13800138000), e.connect(13900139000)
				with(fault, p.icc, 10, func() {
					for i := uint16(1); i <= 2; i++ {
						p.pkt(idMedia, 2, i, media(7, "pppp"))
						q.pkt(idMedia, 2, i, media(7, fmt.Sprint("q", i)))
					}
					rt.Idle()
				})
				n := 0
				for _, u := range uploads() {
					if u.Icc == q.icc {
						n++
						if u.Data != "q1q2" {
							rt.Fail("upload delivered as %q", u.Data)
						}
					}
				}
				if n != 1 {
					rt.Fail("the other terminal's upload was delivered %d times", n)
				}
				for _, r := range replies(q.wire()) {
					if r[4] != 0 {
						rt.Fail("the other terminal's packet was refused")
					}
				}
			})
		}
		return out
	}
}

// with runs f under a storage fault:
//
//	n none; r the storage root is not a directory; i the terminal's folder is not a directory;
//	s nothing can be written; p a packet can only be written partly; m one packet can be
//	written, the merged upload only partly; f the place of the merged file is taken
func with(fault byte, icc uint64, n int, f func()) {
	root := filepath.Join(tmpRoot, "go808")
	dir := filepath.Join(root, fmt.Sprint(icc))
	block := func(path string) {
		os.MkdirAll(filepath.Dir(path), 0755)
		_, err := os.Lstat(path)
		if err == nil {
			must(os.Rename(path, path+".aside"))
		}
		must(os.WriteFile(path, []byte("x"), 0644))
		f()
		must(os.RemoveAll(path))
		if err == nil {
			must(os.Rename(path+".aside", path))
		}
	}
	limit := func(n int) {
		var old syscall.Rlimit
		must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
		lim := old
		lim.Cur = uint64(n)
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim))
		defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
		f()
	}
	switch fault {
	case 'n':
		f()
	case 'r':
		block(root)
	case 'i':
		block(dir)
	case 's':
		limit(0)
	case 'p':
		limit(n / 2)
	case 'm':
		limit(n + n/2)
	case 'f':
		full := filepath.Join(dir, fmt.Sprintf("%d-7.full", idMedia))
		must(os.MkdirAll(filepath.Join(full, "x"), 0755))
		f()
		must(os.RemoveAll(full))
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
