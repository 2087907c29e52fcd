package main

import (
	"bytes"
	"fmt"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"verifmc/rt"
)

// Scenarios with many of everything: requests outstanding, sessions, uploads, keys, starts.
// What holds for two must hold for any number.

// platformTypes lists one message of each type the platform sends.
func platformTypes() []protocol.Entity {
	var out []protocol.Entity
	seen := map[uint16]bool{}
	for _, s := range sampleBodies {
		if s.ID < 0x8000 || seen[s.ID] || s.ID == idGeneral {
			continue
		}
		if e, err := decodeSample(s.ID, unhex(s.Body)); err == nil && e != nil {
			if m := (protocol.Message{Header: protocol.Header{MsgID: e.MsgID()}, Body: e}); canEncode(m) {
				seen[s.ID] = true
				out = append(out, e)
			}
		}
	}
	return out
}

func canEncode(m protocol.Message) bool {
	_, err := m.Encode(nil)
	return err == nil
}

func unhex(s string) []byte {
	b := make([]byte, len(s)/2)
	for i := range b {
		fmt.Sscanf(s[2*i:2*i+2], "%02x", &b[i])
	}
	return b
}

// order lists 0..n-1 in one of several orders.
func order(n, v int) []int {
	var out []int
	step := []int{1, -1, 7, 3}[v%4]
	if step > 1 {
		for gcd(n, step) > 1 {
			step++
		}
	}
	for i, k := 0, 0; i < n; i++ {
		out = append(out, (k%n+n)%n)
		k += step
	}
	return out
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// crowd connects n terminals and returns them with their sessions.
func crowd(e *env, n int) (ps []*peer, ss []*go808.Session) {
	rt.Quiet(true)
	e.handle(idHeartbeat)
	for i := 0; i < n; i++ {
		p := dial(13800138000 + uint64(i))
		if p == nil {
			rt.Fail("terminal %d cannot connect", i)
		}
		ps = append(ps, p)
	}
	rt.Idle()
	ss = make([]*go808.Session, n)
	k := len(handled(0))
	for _, p := range ps {
		p.msg(idHeartbeat, nil)
	}
	rt.Idle()
	hs := handled(0)[k:]
	if len(hs) != n {
		rt.Fail("%d heartbeats of %d terminals handled", len(hs), n)
	}
	ids := map[uint64]bool{}
	for _, h := range hs {
		i := int(h.H.IccID - 13800138000)
		if i < 0 || i >= n || ss[i] != nil {
			rt.Fail("the heartbeat of terminal %d handled twice", h.H.IccID)
		}
		if !h.Found || ids[h.ID] {
			rt.Fail("session %d of terminal %d cannot be looked up by its ID or shares it", h.ID, h.H.IccID)
		}
		ids[h.ID] = true
		ss[i] = h.Sess
	}
	for i, s := range ss {
		for j := 0; j < i; j++ {
			if ss[j] == s {
				rt.Fail("terminals %d and %d share a session", i, j)
			}
		}
	}
	return
}

func init() {
	extend := func(p string, f func(tier string, add func(name string, bound int, run func()))) {
		plain := props[p]
		props[p] = func(tier string) []Scen {
			out := plain(tier)
			f(tier, func(name string, bound int, run func()) {
				out = append(out, Scen{Fam: "scale", Name: name, Bound: bound, Run: run, Horizon: 4000000})
			})
			return out
		}
	}

	extend("C10", func(tier string, add func(string, int, func())) {
		for _, n := range []int{9, 40} {
			n := n
			add(fmt.Sprintf("sessions-%d-scale", n), 0, func() {
				e := start(go808.Options{})
				ps, ss := crowd(e, n)
				for k := 0; k < 260; k++ {
					for i, s := range ss {
						if (k+i)%3 == 0 || i%5 == 0 {
							no, err := s.Send(text("x"))
							if err != nil {
								rt.Fail("send: %v", err)
							}
							rt.Log(evRet{Tag: fmt.Sprint("s", i), Serial: no})
						}
					}
					rt.Idle()
				}
				for i, p := range ps {
					w := checkSerials(p, 255, -1)
					matchReturned(w, fmt.Sprint("s", i))
				}
			})
		}
		// the numbers go on whatever arrives or happens on the session
		for _, k := range []string{"number", "unsupported", "answer", "upload", "auth", "register", "key"} {
			k := k
			add("undisturbed-"+k, 0, func() {
				files()
				e := start(go808.Options{AutoMergePacket: true})
				e.handleFn(0x0100, func(s *go808.Session, m *protocol.Message) {
					s.Send(&protocol.T808_0x8100{MsgSerialNo: m.Header.MsgSerialNo, Result: protocol.T808_0x8100_ResultSuccess, AuthKey: "k"})
				})
				e.handleFn(idAuth, func(s *go808.Session, m *protocol.Message) { s.Reply(m, protocol.T808_0x8001ResultSuccess) })
				p, s := e.session(13800138000)
				rt.Quiet(true)
				for i := 0; i < 300; i++ {
					if i%7 == 3 {
						switch k {
						case "number":
							p.icc++
							p.msg(idHeartbeat, nil)
						case "unsupported":
							p.msg(idUnknown, []byte{1})
						case "answer":
							p.msg(0x0001, append(u16(uint16(i)), 0x83, 0x00, 0))
						case "upload":
							p.pkt(idMedia, 60, uint16(i/7+1), media(7, "x"))
						case "auth":
							p.msg(idAuth, []byte("key"))
						case "register":
							p.msg(0x0100, unhex("010201024131000000413100000000000000000000000000000000000041310000000000014131"))
						case "key":
							s.SetPublicKey(nil)
						}
					}
					s.Send(text("x"))
					rt.Idle()
				}
				checkSerials(p, 255, -1)
			})
		}
	})

	extend("C11", func(tier string, add func(string, int, func())) {
		for _, n := range []int{8, 12, 17, 99} {
			for v := 0; v < 4; v++ {
				n, v := n, v
				add(fmt.Sprintf("outstanding-%d-%d", n, v), 0, func() {
					e := start(go808.Options{})
					p, s := e.session(13800138000)
					e.handle(answerIDs()...)
					rt.Quiet(true)
					ents := platformTypes()
					if len(ents) < 20 {
						rt.Fail("only %d platform message types can be sent", len(ents))
					}
					n := n
					if n > len(ents) {
						n = len(ents)
					}
					for i := 0; i < n; i++ {
						request(s, ents[i], fmt.Sprint("q", i))
						rt.Idle()
					}
					want := make([]uint16, n)
					for j, i := range order(n, v) {
						r := rets(fmt.Sprint("q", i))[0]
						if r.Err != nil {
							rt.Fail("request %d: %v", i, r.Err)
						}
						k := (i + j) % len(answers)
						want[i] = p.msg(answers[k].ID, answers[k].Body(r.Serial))
						rt.Idle()
						for x, a := range want {
							if a != 0 {
								wantCB(fmt.Sprint("q", x), 1, a)
							} else {
								wantCB(fmt.Sprint("q", x), 0, 0)
							}
						}
					}
					for q := uint16(2); q <= p.serial; q++ {
						wantDispatched(q)
					}
					alive(p, s)
				})
			}
		}
		// requests and answers in turn, with some never answered
		add("rounds", 0, func() {
			e := start(go808.Options{})
			p, s := e.session(13800138000)
			e.handle(answerIDs()...)
			rt.Quiet(true)
			ents := platformTypes()
			for i := 0; i < 12; i++ {
				request(s, ents[i], fmt.Sprint("open", i)) // answered at the end
				rt.Idle()
			}
			for i := 0; i < 200; i++ {
				tag := fmt.Sprint("q", i)
				request(s, ents[12+i%5], tag)
				rt.Idle()
				k := i % len(answers)
				a := p.msg(answers[k].ID, answers[k].Body(rets(tag)[0].Serial))
				rt.Idle()
				wantCB(tag, 1, a)
			}
			for i := 11; i >= 0; i-- {
				tag := fmt.Sprint("open", i)
				wantCB(tag, 0, 0)
				a := p.msg(answers[0].ID, answers[0].Body(rets(tag)[0].Serial))
				rt.Idle()
				wantCB(tag, 1, a)
			}
		})
		// requests on many sessions carry the same serial numbers
		for _, n := range []int{5, 20, 70} {
			n := n
			add(fmt.Sprintf("sessions-%d-scale", n), 0, func() {
				e := start(go808.Options{})
				e.handle(answerIDs()...)
				ps, ss := crowd(e, n)
				for i, s := range ss {
					request(s, reqEntity(0), fmt.Sprint("q", i))
					request(s, reqEntity(1), fmt.Sprint("r", i))
				}
				rt.Idle()
				for v, i := range order(n, 2) {
					q, r := fmt.Sprint("q", i), fmt.Sprint("r", i)
					k := v % len(answers)
					a := ps[i].msg(answers[k].ID, answers[k].Body(rets(r)[0].Serial))
					rt.Idle()
					wantCB(r, 1, a)
					wantCB(q, 0, 0)
					a = ps[i].msg(answers[k].ID, answers[k].Body(rets(q)[0].Serial))
					rt.Idle()
					wantCB(q, 1, a)
				}
			})
		}
	})

	extend("C12", func(tier string, add func(string, int, func())) {
		for _, n := range []int{9, 40, 140} {
			n := n
			add(fmt.Sprintf("terminals-%d", n), 0, func() {
				e := start(go808.Options{})
				ps, ss := crowd(e, n)
				e.handle(idLocation)
				k := len(handled(0))
				for r := 0; r < 3; r++ {
					for _, i := range order(n, r) {
						ps[i].msg(idLocation, loc())
						if (i+r)%4 == 0 {
							ps[i].msg(idUnknown, []byte{1})
						}
					}
					if r != 1 {
						rt.Idle()
					}
				}
				rt.Idle()
				last, cnt := map[uint64]uint16{}, map[uint64]int{}
				for _, h := range handled(0)[k:] {
					i := int(h.H.IccID - 13800138000)
					if i < 0 || i >= n || h.Sess != ss[i] {
						rt.Fail("a message of terminal %d was handled with another session", h.H.IccID)
					}
					if h.H.MsgSerialNo <= last[h.H.IccID] {
						rt.Fail("terminal %d: message %d handled after message %d", h.H.IccID, h.H.MsgSerialNo, last[h.H.IccID])
					}
					last[h.H.IccID] = h.H.MsgSerialNo
					cnt[h.H.IccID]++
				}
				for i, p := range ps {
					if cnt[p.icc] != 3 {
						rt.Fail("%d of 3 messages of terminal %d were handled", cnt[p.icc], i)
					}
					if r := replies(p.wire()); len(r) != int(p.serial)-4 {
						rt.Fail("terminal %d got %d general replies to %d unsupported messages", i, len(r), int(p.serial)-4)
					}
				}
			})
		}
		// many messages without a type in one go, sent by a terminal that reads its answers
		for _, n := range []int{5, 12, 24, 30, 100} {
			n := n
			add(fmt.Sprintf("burst-unknown-%d", n), pick(tier, 0, 1), func() {
				e := start(go808.Options{})
				p, s := e.session(13800138000)
				var b, want []byte
				for i := 0; i < n; i++ {
					p.serial++
					b = append(b, frame(hdr{ID: idUnknown, Icc: p.icc, Serial: p.serial}, nil)...)
					want = append(want, general(p.serial, idUnknown, 3)...)
				}
				p.PeerSend(b)
				rt.Idle()
				if p.ServerClosed() {
					rt.Fail("a burst of %d unsupported messages ends the connection: its queue of answers is full", n)
				}
				var got []byte
				for _, r := range replies(p.wire()) {
					got = append(got, r...)
				}
				if !bytes.Equal(got, want) {
					rt.Fail("the answers to %d unsupported messages are %x", n, got)
				}
				alive(p, s)
			})
		}
		for _, n := range []int{200, 3000} {
			n := n
			add(fmt.Sprintf("messages-%d", n), 0, func() {
				e := start(go808.Options{})
				p, s := e.session(13800138000)
				e.handle(idLocation)
				rt.Quiet(true)
				k := len(handled(0))
				var want []uint16
				burst := 1
				for len(want) < n {
					var b []byte
					for i := 0; i < burst && len(want) < n; i++ {
						p.serial++
						b = append(b, frame(hdr{ID: idLocation, Icc: p.icc, Serial: p.serial}, loc())...)
						want = append(want, p.serial)
					}
					p.PeerSend(b)
					rt.Idle()
					burst = burst*3%197 + 1
				}
				hs := handled(0)[k:]
				for i, h := range hs {
					if i >= len(want) || h.H.MsgSerialNo != want[i] || h.Sess != s {
						rt.Fail("dispatch %d: message %d; expected %d", i, h.H.MsgSerialNo, want[i%len(want)])
					}
				}
				if len(hs) != len(want) {
					rt.Fail("%d of %d messages dispatched", len(hs), len(want))
				}
			})
		}
	})

	extend("C13", func(tier string, add func(string, int, func())) {
		for _, n := range []int{9, 33, 130, 260} {
			for v, how := range []string{"fin", "app", "timeout", "stop", "junk", "mixed"} {
				n, v, how := n, v, how
				if n == 260 && how != "fin" && how != "timeout" {
					continue
				}
				add(fmt.Sprintf("crowd-%s-%d", how, n), 0, func() {
					o := go808.Options{}
					if how == "timeout" {
						o.Keepalive = keep
					}
					e := start(o)
					ps, ss := crowd(e, n)
					open := map[int]bool{}
					for i := range ss {
						open[i] = true
					}
					check := func() {
						c := map[*go808.Session]int{}
						for _, x := range closed() {
							c[x.Sess]++
						}
						for i, s := range ss {
							got, ok := e.srv.GetSession(s.ID())
							if open[i] {
								if !ok || got != s || c[s] != 0 || ps[i].ServerClosed() {
									rt.Fail("of %d sessions the open one %d: found %v, itself %v, close handler ran %d times, connection closed %v", n, i, ok, got == s, c[s], ps[i].ServerClosed())
								}
							} else if ok || c[s] != 1 || !ps[i].ServerClosed() {
								rt.Fail("of %d sessions the closed one %d: found %v, close handler ran %d times, connection closed %v", n, i, ok, c[s], ps[i].ServerClosed())
							}
						}
						if k := e.srv.Broadcast(text("x")); k != len(open) {
							rt.Fail("a broadcast counts %d of %d open sessions", k, len(open))
						}
						rt.Idle()
					}
					check()
					switch how {
					case "stop":
						e.srv.Stop()
						open = map[int]bool{}
						rt.Idle()
						check()
						return
					case "timeout":
						// the odd ones go on
						for t := 0; t < keep+3; t++ {
							rt.Advance(1e9)
							for i, p := range ps {
								if i%2 == 1 {
									p.msg(idHeartbeat, nil)
								}
							}
							rt.Idle()
						}
						for i := range ps {
							if i%2 == 0 {
								delete(open, i)
							}
						}
						check()
						rt.Advance((keep + 3) * 1e9)
						open = map[int]bool{}
						check()
						return
					}
					for j, i := range order(n, v+2) {
						k := how
						if k == "mixed" {
							k = []string{"fin", "app", "junk", "reset", "badsum"}[j%5]
						}
						act(k, e, ps[i], ss[i])
						delete(open, i)
						if n < 20 || j == n/3 || j == n/2 || j == n-2 {
							rt.Idle()
							check()
						}
					}
					rt.Idle()
					check()
					// and the server goes on
					p, s := e.session(13600136000)
					alive(p, s)
				})
			}
		}
	})

	extend("C14", func(tier string, add func(string, int, func())) {
		for _, n := range []int{9, 40, 150} {
			for v := 0; v < 3; v++ {
				n, v := n, v
				add(fmt.Sprintf("crowd-%d-%d", n, v), 0, func() {
					const k = 6
					e := keepServer(k, false)
					keepPrepare(e)
					ps, ss := crowd(e, n)
					acts := make([][]int64, n)
					for i := range ps {
						acts[i] = []int64{rt.ElapsedNs()}
					}
					// terminal i reports every 1 + i%period half seconds until it falls silent
					for t := 0; t < 40; t++ {
						rt.Advance(half)
						for i, p := range ps {
							var due bool
							switch v {
							case 0:
								due = t%(1+i%10) == 0 && t < i
							case 1:
								due = i == n-1 || i%13 == 0
							case 2:
								due = (t+i)%9 == 0 && (i%2 == 0 || t < 20)
							}
							if due && !p.ServerClosed() {
								activity(activities[(t+i)%4], e, p, t)
								acts[i] = append(acts[i], rt.ElapsedNs())
							}
						}
						rt.Idle()
					}
					for i := range ps {
						judge(k, acts[i], closeTime(ss[i]), rt.ElapsedNs())
					}
					rt.Advance((k + 3) * 1e9)
					for i := range ps {
						judge(k, acts[i], closeTime(ss[i]), rt.ElapsedNs())
					}
				})
			}
		}
	})

	extend("C15", func(tier string, add func(string, int, func())) {
		for _, n := range []int{9, 17, 33, 65, 130, 300} {
			n := n
			add(fmt.Sprintf("broadcast-%d-scale", n), 0, func() {
				e := start(go808.Options{})
				ps, ss := crowd(e, n)
				sent := 0
				gone := map[int]bool{}
				round := func() {
					k := e.srv.Broadcast(text(fmt.Sprint("b", sent)))
					sent++
					if k != n-len(gone) {
						rt.Fail("a broadcast to %d open sessions returned %d", n-len(gone), k)
					}
					rt.Idle()
				}
				check := func() {
					for i, p := range ps {
						if gone[i] {
							continue
						}
						w := p.wire()
						if len(w) != sent {
							rt.Fail("%d broadcasts, %d messages on connection %d of %d", sent, len(w), i, n)
						}
						for j, m := range w {
							if m.H.Icc != p.icc || string(m.Body[1:]) != fmt.Sprint("b", j) {
								rt.Fail("message %d on connection %d: %q for terminal %d", j, i, m.Body[1:], m.H.Icc)
							}
						}
					}
				}
				round()
				round()
				check()
				for i := range ps {
					if i%3 == 0 || i == n-1 {
						gone[i] = true
						ps[i].PeerClose()
					}
				}
				rt.Idle()
				round()
				check()
				_ = ss
			})
			add(fmt.Sprintf("sends-%d-scale", n), 0, func() {
				e := start(go808.Options{})
				ps, ss := crowd(e, n)
				for r := 0; r < 3; r++ {
					for _, i := range order(n, r+1) {
						if _, err := ss[i].Send(text(fmt.Sprintf("%d:%d", i, r))); err != nil {
							rt.Fail("send: %v", err)
						}
					}
					if r > 0 {
						rt.Idle()
					}
				}
				for i, p := range ps {
					w := texted(p)
					for r := 0; r < 3; r++ {
						if len(w) != 3 || w[r] != fmt.Sprintf("%d:%d", i, r) {
							rt.Fail("connection %d of %d carries %q", i, n, w)
						}
					}
				}
			})
		}
	})

	extend("C17", func(tier string, add func(string, int, func())) {
		for _, n := range []int{9, 40, 150} {
			for v := 0; v < 3; v++ {
				n, v := n, v
				if n == 150 && v > 0 {
					continue
				}
				add(fmt.Sprintf("uploads-%d-%d", n, v), 0, func() {
					files()
					e := start(go808.Options{AutoMergePacket: true})
					e.handleUploads()
					ps, _ := crowd(e, []int{1, n, 5}[v])
					st := store{}
					x := &expect{reps: map[*peer][][]byte{}, beats: len(ps)}
					for seq := uint16(1); seq <= 3; seq++ {
						for _, u := range order(n, int(seq)) {
							p := ps[u%len(ps)]
							tag := uint32(u)
							if v == 1 {
								tag = 7
							}
							sq := (seq+uint16(u))%3 + 1
							d := content(p.serial + 1)
							no := p.pkt(idMedia, 3, sq, media(tag, d))
							x.reps[p] = append(x.reps[p], general(no, idMedia, 0))
							if all, ok := st.put(p.icc, tag, 3, sq, d); ok {
								x.ups = append(x.ups, evUpload{Icc: p.icc, Serial: no, Tag: tag, Data: all})
								st.forget(p.icc, tag)
							}
							rt.Idle()
						}
					}
					x.check()
				})
			}
		}
		// all packets of an upload in one go, sent by a terminal that reads its answers
		for _, n := range []int{5, 12, 24, 30, 100} {
			n := n
			add(fmt.Sprintf("burst-%d", n), pick(tier, 0, 1), func() {
				files()
				e := start(go808.Options{AutoMergePacket: true})
				e.handleUploads()
				p := e.connect(13800138000)
				x := &expect{reps: map[*peer][][]byte{}}
				var b []byte
				all := ""
				for i := 0; i < n; i++ {
					d := fmt.Sprintf("<%d>", i)
					all += d
					p.serial++
					b = append(b, frame(hdr{ID: idMedia, Icc: p.icc, Serial: p.serial, Pkt: true, Sum: uint16(n), Seq: uint16(i + 1)}, media(7, d))...)
					x.reps[p] = append(x.reps[p], general(p.serial, idMedia, 0))
				}
				x.ups = []evUpload{{Icc: p.icc, Serial: p.serial, Tag: 7, Data: all}}
				p.PeerSend(b)
				rt.Idle()
				if p.ServerClosed() {
					rt.Fail("a burst of %d packets ends the connection: its queue of answers is full", n)
				}
				x.check()
			})
		}
		// the same upload again and again
		for _, n := range []int{2, 3} {
			n := n
			add(fmt.Sprintf("repeated-%d", n), 0, func() {
				files()
				e := start(go808.Options{AutoMergePacket: true})
				e.handleUploads()
				p := e.connect(13800138000)
				st := store{}
				x := &expect{reps: map[*peer][][]byte{}}
				for r := 0; r < 60; r++ {
					for i := 0; i < n; i++ {
						seq := uint16((i+r)%n + 1)
						d := content(p.serial + 1)
						no := p.pkt(idMedia, uint16(n), seq, media(7, d))
						x.reps[p] = append(x.reps[p], general(no, idMedia, 0))
						if all, ok := st.put(p.icc, 7, uint16(n), seq, d); ok {
							x.ups = append(x.ups, evUpload{Icc: p.icc, Serial: no, Tag: 7, Data: all})
							st.forget(p.icc, 7)
						}
						rt.Idle()
					}
				}
				x.check()
			})
		}
	})

	extend("C19", func(tier string, add func(string, int, func())) {
		for _, m := range []int{100, 1000, 3000} {
			for v := 0; v < 5; v++ {
				m, v := m, v
				add(fmt.Sprintf("keys-%d-%d", m, v), 0, func() {
					rt.Quiet(true)
					c := newTimer(5, nil)
					for _, i := range order(m, v) {
						c.set(int64(1 + i*7%11))
						c.update(fmt.Sprint(i))
					}
					for j, i := range order(m, v+1) {
						switch v {
						case 1:
							if j%2 == 0 {
								c.remove(fmt.Sprint(i))
							}
						case 2:
							c.update(fmt.Sprint(i))
						case 3:
							if j%(m/4) == 0 {
								c.wait(1e9)
							}
							c.remove(fmt.Sprint(i))
							c.update(fmt.Sprint(m - i))
						case 4:
							if j%(m/10) == 0 {
								c.wait(1e9)
							}
							c.update(fmt.Sprint(j * 3 % m))
						}
					}
					c.finish()
					rt.Quiet(false)
				})
			}
		}
	})

	extend("C20", func(tier string, add func(string, int, func())) {
		for _, n := range []int{9, 40, 130} {
			for _, how := range []string{"idle", "fresh", "waiting", "stalled"} {
				n, how := n, how
				add(fmt.Sprintf("stop-crowd-%s-%d", how, n), 0, func() {
					e := start(go808.Options{})
					var ps []*peer
					if how == "fresh" || how == "waiting" {
						rt.Quiet(true)
						for i := 0; i < n; i++ {
							ps = append(ps, dial(13800138000+uint64(i)))
							if how == "waiting" {
								ps[i].msg(idHeartbeat, nil)
							}
						}
					} else {
						var ss []*go808.Session
						ps, ss = crowd(e, n)
						if how == "stalled" {
							for i, p := range ps {
								p.PeerStall(true)
								for k := 0; k < 3+i%20; k++ {
									ss[i].Send(text("x"))
								}
							}
						}
					}
					done := rt.Go("stop", func() { e.stop() })
					joinAll(done)
					rt.Quiet(true)
					if !e.runT.Done() {
						rt.Fail("running does not end when the server is stopped")
					}
					stopped(e, ps...)
					for _, p := range ps {
						if p.ServerClosed() != p.Accepted {
							rt.Fail("a connection is still open after stopping")
						}
					}
					cycle(e)
				})
			}
		}
		add("many-cycles", 0, func() {
			e := start(go808.Options{})
			e.srv.Stop()
			rt.Idle()
			for i := 0; i < 60; i++ {
				cycle(e)
			}
		})
	})

	extend("C21", func(tier string, add func(string, int, func())) {
		for _, n := range []int{60, 250} {
			n := n
			add(fmt.Sprintf("storm-%d", n), 0, func() {
				files()
				e := start(go808.Options{AutoMergePacket: true})
				q, qs := e.session(13900139000)
				rt.Quiet(true)
				var ps []*peer
				for i := 0; i < n; i++ {
					p := dial(uint64(i))
					if p == nil {
						rt.Fail("connection %d of a storm cannot connect", i)
					}
					ps = append(ps, p)
					switch i % 6 {
					case 0:
						p.PeerSend([]byte{0x7e, 1, 2})
					case 1:
						p.PeerSend([]byte{1, 2, 3})
					case 2:
						p.msg(idUnknown, nil)
						p.PeerClose()
					case 3:
						p.pkt(idMedia, 65535, uint16(i), media(7, "x"))
					case 4:
						p.PeerReset()
					}
					if i%50 == 49 {
						rt.Idle()
						alive(q, qs)
						rt.Quiet(true)
					}
				}
				rt.Idle()
				alive(q, qs)
			})
		}
	})
}
