package main

import (
	"bytes"
	"fmt"
	"io"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"verifmc/rt"
)

// Scenarios with every content: what holds for one message of a kind must hold for all of them.

// answerBodies lists bodies of an answer (behind the serial number of the request).
func answerBodies(id uint16) [][]byte {
	var out [][]byte
	all := func(pre, post []byte) {
		for b := 0; b < 256; b++ {
			out = append(out, append(append(append([]byte{}, pre...), byte(b)), post...))
		}
	}
	at := func(status uint32, rest ...byte) []byte {
		b := append(append(u32(0xffffffff), u32(status)...), make([]byte, 14)...)
		b = append(b, 0x99, 0x12, 0x31, 0x23, 0x59, 0x59)
		return append(b, rest...)
	}
	switch id {
	case 0x0001:
		all([]byte{0x83, 0x00}, nil)
		all([]byte{0x81}, []byte{1})
		all(nil, []byte{0x04, 0})
	case 0x0104:
		out = append(out, []byte{0})
		var many []byte
		for i := 0; i < 100; i++ {
			if i < 60 {
				many = append(append(many, u32(uint32(i))...), 1, byte(i))
			}
			if i%20 == 3 && i < 60 {
				out = append(out, append([]byte{byte(i + 1)}, many...))
			}
		}
		for n := 0; n < 256; n += 15 {
			out = append(out, append(append([]byte{1}, append(u32(0xf000), byte(n))...), make([]byte, n)...))
		}
	case 0x0201, 0x0500:
		for i := 0; i < 32; i++ {
			out = append(out, at(1<<uint(i)))
		}
		out = append(out, at(0), at(0xffffffff), at(3, 0x01, 4, 0, 0, 0, 1), at(0, 0xe0, 0), at(0, append([]byte{0xe1, 200}, make([]byte, 200)...)...))
	case 0x0302:
		all(nil, nil)
	case 0x0700:
		all(nil, nil)
		for _, n := range []int{0, 1, 2, 100, 500, 1000} {
			out = append(out, append([]byte{8}, make([]byte, n)...))
		}
	case 0x0802:
		for n := 0; n < 28; n++ {
			b := u16(uint16(n))
			for i := 0; i < n; i++ {
				b = append(append(append(b, u32(uint32(i))...), byte(i), byte(i+1), byte(i+2)), loc()...)
			}
			out = append(out, b)
		}
	case 0x0805:
		all(nil, []byte{0, 0})
		all(nil, append(u16(1), u32(9)...))
		for n := 0; n < 200; n += 9 {
			b := append([]byte{0}, u16(uint16(n))...)
			for i := 0; i < n; i++ {
				b = append(b, u32(uint32(i))...)
			}
			out = append(out, b)
		}
	}
	return out
}

// headers are forms of a header that mean the same message.
func headers(id uint16, icc uint64) []hdr {
	var out []hdr
	for _, s := range []uint16{0, 1, 255, 256, 0x7e7d, 0xffff, 0xffff} {
		out = append(out, hdr{ID: id, Icc: icc, Serial: s})
	}
	for _, c := range []uint64{0, 1, 9, 10, 999999999999, 100000000000, icc} {
		out = append(out, hdr{ID: id, Icc: c, Serial: 7})
	}
	for _, x := range []uint16{1 << 11, 1 << 12, 1 << 14, 1 << 15, 0xd800} {
		out = append(out, hdr{ID: id, Icc: icc, Serial: 8, Prop: x})
	}
	for _, k := range [][2]uint16{{1, 1}, {2, 1}, {2, 2}, {0, 0}, {0xffff, 0xffff}, {1, 9}} {
		out = append(out, hdr{ID: id, Icc: icc, Serial: 9, Pkt: true, Sum: k[0], Seq: k[1]})
	}
	return out
}

func init() {
	extend := func(p string, f func(tier string, add func(name string, bound int, run func()))) {
		plain := props[p]
		props[p] = func(tier string) []Scen {
			out := plain(tier)
			f(tier, func(name string, bound int, run func()) {
				out = append(out, Scen{Fam: "contents", Name: name, Bound: bound, Run: run, Horizon: 4000000})
			})
			return out
		}
	}

	extend("C11", func(tier string, add func(string, int, func())) {
		for _, a := range answers {
			a := a
			add(fmt.Sprintf("content-%04x", a.ID), 0, func() {
				e := start(go808.Options{})
				p, s := e.session(13800138000)
				e.handle(answerIDs()...)
				rt.Quiet(true)
				bodies := answerBodies(a.ID)
				if len(bodies) < 20 {
					rt.Fail("only %d bodies", len(bodies))
				}
				tags := 0
				for i, b := range bodies {
					tag := fmt.Sprint("q", i)
					request(s, reqEntity(i%6), tag)
					rt.Idle()
					r := rets(tag)[0]
					if r.Err != nil {
						rt.Fail("request %d: %v", i, r.Err)
					}
					no := p.msg(a.ID, append(u16(r.Serial), b...))
					rt.Idle()
					tags++
					n := 0
					for _, c := range cbs() {
						n++
						if c.Tag == tag && (c.Serial != no || uint16(c.Msg) != a.ID) {
							rt.Fail("the callback of request %d ran with message %04x %d instead of %04x %d", i, c.Msg, c.Serial, a.ID, no)
						}
					}
					if n != tags {
						rt.Fail("after the answer %04x %x to request %d, %d callbacks have run, not %d", a.ID, b, i, n, tags)
					}
					wantCB(tag, 1, no)
				}
				alive(p, s)
			})
		}
		for _, merge := range []bool{false, true} {
			merge := merge
			for _, k := range []int{0, 2, 6} {
				k := k
				add(fmt.Sprintf("answer-headers-%d-%v", k, merge), 0, func() {
					files()
					e := start(go808.Options{AutoMergePacket: merge})
					p, s := e.session(13800138000)
					e.handle(answerIDs()...)
					rt.Quiet(true)
					for i, h := range headers(answers[k].ID, p.icc) {
						tag := fmt.Sprint("q", i)
						request(s, reqEntity(i%6), tag)
						rt.Idle()
						p.PeerSend(frame(h, answers[k].Body(rets(tag)[0].Serial)))
						rt.Idle()
						wantCB(tag, 1, h.Serial)
						if n := len(cbs()); n != i+1 {
							rt.Fail("after the answer with header %+v, %d callbacks have run, not %d", h, n, i+1)
						}
					}
					alive(p, s)
				})
			}
		}
	})

	// sent, replied to and broadcast: every message type of the platform, as the layout has it
	sends := func(name string, n int, send func(e *env, s *go808.Session, ent protocol.Entity) error) func(string, func(string, int, func())) {
		return func(tier string, add func(string, int, func())) {
			add(name, 0, func() {
				e := start(go808.Options{})
				rt.Quiet(true)
				e.handle(idHeartbeat)
				ps, ss := crowd(e, n)
				k := 0
				for _, b := range sampleBodies {
					ent, err := decodeSample(b.ID, unhex(b.Body))
					if b.ID < 0x8000 || err != nil || ent == nil {
						continue
					}
					if name == "broadcasts" && southWest(b.ID, unhex(b.Body)) {
						continue // a known finding of C22
					}
					k++
					if err := send(e, ss[0], ent); err != nil {
						rt.Fail("message %04x %s is not sent: %v", b.ID, b.Body, err)
					}
					rt.Idle()
					for i, p := range ps {
						w := p.wire()
						if i > 0 && name == "sends" {
							if len(w) != 0 {
								rt.Fail("message %04x sent to one terminal reaches another", b.ID)
							}
							continue
						}
						if len(w) != k {
							rt.Fail("terminal %d has received %d messages of %d", i, len(w), k)
						}
						m := w[k-1]
						if m.H.ID != b.ID || m.H.Icc != p.icc || m.H.Serial != uint16((k-1)%255+1) || m.H.Pkt || m.H.Prop&^uint16(0x3ff) != 0 || !bytes.Equal(m.Body, unhex(b.Body)) {
							rt.Fail("message %04x %s reaches terminal %d as %+v %x", b.ID, b.Body, i, m.H, m.Body)
						}
					}
				}
				if k < 50 {
					rt.Fail("only %d samples", k)
				}
				alive(ps[0], ss[0])
			})
		}
	}
	extend("C10", sends("sends", 2, func(e *env, s *go808.Session, ent protocol.Entity) error {
		_, err := s.Send(ent)
		return err
	}))
	extend("C15", sends("broadcasts", 3, func(e *env, s *go808.Session, ent protocol.Entity) error {
		if n := e.srv.Broadcast(ent); n != 3 {
			return fmt.Errorf("%d sessions of 3", n)
		}
		return nil
	}))

	extend("C12", func(tier string, add func(string, int, func())) {
		for _, merge := range []bool{false, true} {
			merge := merge
			add(fmt.Sprintf("content-headers-%v", merge), 0, func() {
				files()
				e := start(go808.Options{AutoMergePacket: merge})
				p, s := e.session(13800138000)
				rt.Quiet(true)
				seen := map[uint16]bool{}
				var ids []uint16
				for _, b := range sampleBodies {
					if !seen[b.ID] && b.ID != idHeartbeat {
						seen[b.ID] = true
						ids = append(ids, b.ID)
					}
				}
				e.handle(ids...)
				for i, b := range sampleBodies {
					hs := headers(b.ID, p.icc)
					for j, h := range hs {
						if j%5 != i%5 || b.ID == idMedia && h.Pkt {
							continue
						}
						k := len(handled(0))
						p.PeerSend(frame(h, unhex(b.Body)))
						rt.Idle()
						g := handled(0)[k:]
						if len(g) != 1 {
							rt.Fail("message %04x %s with header %+v is handled %d times", b.ID, b.Body, h, len(g))
						}
						x := g[0]
						if uint16(x.H.MsgID) != h.ID || x.H.IccID != h.Icc || x.H.MsgSerialNo != h.Serial || (x.H.Packet != nil) != h.Pkt || x.Sess != s || uint16(x.Body.MsgID()) != b.ID {
							rt.Fail("message %04x with header %+v is handled as %+v", b.ID, h, x.H)
						}
						if h.Pkt && (x.H.Packet.Sum != h.Sum || x.H.Packet.Seq != h.Seq) {
							rt.Fail("message %04x with header %+v is handled as packet %+v", b.ID, h, *x.H.Packet)
						}
					}
				}
				if len(p.Writes) != 0 {
					rt.Fail("a well-formed message was answered")
				}
				alive(p, s)
			})
		}
	})

	extend("C14", func(tier string, add func(string, int, func())) {
		// whatever a terminal sends keeps its session open
		for v := 0; v < 2; v++ {
			v := v
			add(fmt.Sprintf("content-%d", v), 0, func() {
				files()
				e := keepServer(3, v == 1)
				p, s := e.session(13800138000)
				rt.Quiet(true)
				var fs [][]byte
				for _, m := range sampleBodies {
					p.serial++
					fs = append(fs, frame(hdr{ID: m.ID, Icc: p.icc, Serial: p.serial}, unhex(m.Body)))
				}
				for _, id := range []uint16{idHeartbeat, idUnknown, idLocation} {
					for _, h := range headers(id, p.icc) {
						fs = append(fs, frame(h, map[bool][]byte{true: loc()}[id == idLocation]))
					}
				}
				p.PeerSend(frame(hdr{ID: idHeartbeat, Icc: p.icc, Serial: 1}, nil))
				rt.Idle()
				acts := []int64{rt.ElapsedNs()}
				for i, f := range fs {
					rt.Advance(int64(19e8))
					rt.Idle()
					if at := closeTime(s); at >= 0 || p.ServerClosed() {
						rt.Fail("keepalive 3 s: message %d (%x) does not keep the session open, which is closed at %.2f s; the last message arrived at %.2f s", i-1, fs[max(i-1, 0)], sec(at), sec(acts[len(acts)-1]))
					}
					p.PeerSend(f)
					rt.Idle()
					acts = append(acts, rt.ElapsedNs())
				}
				rt.Advance(int64(6e9))
				rt.Idle()
				judge(3, acts, closeTime(s), rt.ElapsedNs())
			})
		}
	})

	extend("C17", func(tier string, add func(string, int, func())) {
		type got struct {
			H    protocol.Header
			B    [4]byte
			Loc  uint32
			Tag  uint32
			Data string
			Err  error
		}
		upload := func(e *env) {
			e.srv.AddHandler(idMedia, func(s *go808.Session, m *protocol.Message) {
				b := m.Body.(*protocol.T808_0x0801)
				d, err := io.ReadAll(b.Packet)
				rt.Log(got{H: m.Header, B: [4]byte{byte(b.Type), byte(b.Coding), b.Event, b.ChannelID}, Loc: b.Location.Alarm, Tag: b.MediaID, Data: string(d), Err: err})
			})
		}
		last := func() (g got, n int) {
			for _, x := range rt.Events() {
				if y, ok := x.(got); ok {
					g = y
					n++
				}
			}
			return
		}
		body := func(tag uint32, f [4]byte, alarm uint32, data string) []byte {
			l := loc()
			copy(l, u32(alarm))
			return append(append(append(u32(tag), f[:]...), l...), data...)
		}
		add("content-fields", 0, func() {
			files()
			e := start(go808.Options{AutoMergePacket: true})
			upload(e)
			p := e.connect(13800138000)
			rt.Quiet(true)
			n := 0
			one := func(icc uint64, tag uint32, f [4]byte, alarm uint32, prop uint16) {
				var h hdr
				for seq := uint16(1); seq <= 2; seq++ {
					p.serial++
					h = hdr{ID: idMedia, Icc: icc, Serial: p.serial, Prop: prop, Pkt: true, Sum: 2, Seq: seq}
					p.PeerSend(frame(h, body(tag, f, alarm, fmt.Sprint("part", seq, "."))))
					rt.Idle()
					g, k := last()
					if seq == 1 && k != n {
						rt.Fail("half of upload %d of terminal %d is delivered", tag, icc)
					}
					if seq == 1 {
						continue
					}
					n++
					if k != n || g.Err != nil || g.Data != "part1.part2." || g.Tag != tag || g.B != f || g.Loc != alarm || g.H.IccID != icc || g.H.MsgSerialNo != p.serial {
						rt.Fail("upload %d of terminal %d with fields %v, alarm %x, property %x is delivered %d times, as %+v", tag, icc, f, alarm, prop, k-n+1, g)
					}
				}
				if w := p.wire(); len(w) != 2*n || string(w[2*n-1].Body) != string(general(p.serial, idMedia, 0)) {
					rt.Fail("the packets of upload %d are not confirmed", tag)
				}
			}
			for b := 0; b < 256; b++ {
				x := byte(b)
				one(p.icc, uint32(b)*0x01010101, [4]byte{x, x + 1, x + 2, x + 3}, uint32(b)<<24, 0)
			}
			for i := 0; i < 32; i++ {
				one(p.icc, 1<<uint(i), [4]byte{0, 0, 1, 1}, 1<<uint(i), 0)
			}
			for _, icc := range []uint64{1, 9, 10, 99, 13900139000, 100000000000, 999999999999} {
				one(icc, 7, [4]byte{1, 2, 3, 4}, 0, 0)
			}
			for _, x := range []uint16{1 << 11, 1 << 12, 1 << 14, 1 << 15} {
				one(p.icc, 8, [4]byte{1, 2, 3, 4}, 0, x)
			}
		})
		// packets of every length
		add("content-lengths", 0, func() {
			files()
			e := start(go808.Options{AutoMergePacket: true})
			upload(e)
			p := e.connect(13800138000)
			rt.Quiet(true)
			want := 0
			for n := 0; n <= 987; n += pick(tier, 7, 1) {
				a, b := make([]byte, n), make([]byte, 987-n)
				for i := range a {
					a[i] = byte(i ^ n)
				}
				for i := range b {
					b[i] = byte(i + n)
				}
				p.pkt(idMedia, 2, 1, body(uint32(n), [4]byte{}, 0, string(a)))
				rt.Idle()
				p.pkt(idMedia, 2, 2, body(uint32(n), [4]byte{}, 0, string(b)))
				rt.Idle()
				want++
				if g, k := last(); k != want || g.Err != nil || g.Data != string(a)+string(b) || g.Tag != uint32(n) {
					rt.Fail("an upload of %d+%d bytes is delivered %d times, %d bytes, %v", len(a), len(b), k-want+1, len(g.Data), g.Err)
				}
			}
		})
	})

	extend("C21", func(tier string, add func(string, int, func())) {
		for _, merge := range []bool{false, true} {
			merge := merge
			for v, m := range []termMsg{{idUnknown, []byte{1}}, {idLocation, []byte{1}}, {idMedia, []byte{1, 2}}} {
				m := m
				add(fmt.Sprintf("header-forms-%d-%v", v, merge), 0, func() {
					files()
					e := start(go808.Options{AutoMergePacket: merge})
					p, s := e.session(13800138000)
					e.handle(idUnknown, idLocation, idMedia)
					rt.Quiet(true)
					k := len(handled(0))
					for i, h := range headers(m.ID, p.icc) {
						p.PeerSend(frame(h, m.Body))
						rt.Idle()
						w := p.wire()
						if len(w) != i+1 {
							rt.Fail("message %04x %x with header %+v: %d answers", m.ID, m.Body, h, len(w)-i)
						}
						if w[i].H.ID != idGeneral || string(w[i].Body) != string(general(h.Serial, m.ID, 3)) {
							rt.Fail("message %04x %x with header %+v is answered with %+v", m.ID, m.Body, h, w[i])
						}
					}
					if len(handled(0)) != k {
						rt.Fail("a message that cannot be decoded is handled")
					}
					alive(p, s)
				})
			}
		}
	})
}
