package main

import (
	"fmt"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"verifmc/rt"
)

// the ways a session can end
var closers = []string{"fin", "reset", "junk", "badsum", "app", "timeout", "writeerr", "shortwrite", "stop", "handler", "callback", "encerr", "full"}

const keep = 5 // seconds, in scenarios with a short keepalive

// badEntity cannot be encoded.
type badEntity struct{ protocol.T808_0x8300 }

func (*badEntity) Encode() ([]byte, error) { return nil, fmt.Errorf("cannot be encoded") }

// act performs one way of ending the session; it may be called from a thread of its own.
func act(kind string, e *env, p *peer, s *go808.Session) {
	switch kind {
	case "fin":
		p.PeerClose()
	case "reset":
		p.PeerReset()
	case "junk":
		p.PeerSend([]byte{1, 2, 3})
	case "badsum":
		f := frame(hdr{ID: idHeartbeat, Icc: p.icc, Serial: 99}, nil)
		f[len(f)-2] ^= 1
		p.PeerSend(f)
	case "app":
		s.Close()
	case "timeout":
		rt.Jump((keep + 3) * 1e9)
	case "writeerr":
		p.PeerFailWrite(0, 0)
		s.Send(text("x"))
	case "shortwrite":
		p.PeerFailWrite(0, 5)
		s.Send(text("x"))
	case "stop":
		e.srv.Stop()
	case "handler":
		p.PeerSend(frame(hdr{ID: idAuth, Icc: p.icc, Serial: 98}, []byte("key")))
	case "callback":
		p.PeerSend(frame(hdr{ID: 0x0104, Icc: p.icc, Serial: 97}, append(u16(1), 0)))
	case "encerr":
		s.Send(&badEntity{})
	case "full":
		p.PeerStall(true)
		for i := 0; i < 600; i++ {
			if _, err := s.Send(text("fill")); err != nil {
				return
			}
		}
		s.Close() // takes that much
	}
}

// closedOnce checks that the close handler ran exactly once for the session.
func closedOnce(s *go808.Session) {
	n := 0
	for _, c := range closed() {
		if c.Sess == s {
			n++
		}
	}
	if n != 1 {
		rt.Fail("the close handler ran %d times for a closed session", n)
	}
}

// gone checks that nothing is left of a closed session.
func gone(e *env, p *peer, s *go808.Session) {
	closedOnce(s)
	forgotten(e, p, s)
}

func forgotten(e *env, p *peer, s *go808.Session) {
	if got, ok := e.srv.GetSession(s.ID()); ok || got != nil {
		rt.Fail("a closed session can still be looked up")
	}
	if !p.ServerClosed() {
		rt.Fail("the connection of a closed session is still open")
	}
	n := len(p.Writes)
	if _, err := s.Send(text("late")); err == nil {
		rt.Fail("sending on a closed session succeeds")
	}
	if _, err := s.Request(reqEntity(0), func(*protocol.Message) {}); err == nil {
		rt.Fail("a request on a closed session succeeds")
	}
	rt.Idle()
	if len(p.Writes) != n {
		rt.Fail("something was written to a closed connection")
	}
}

// bystander checks that an uninvolved session is still fully there.
func bystander(e *env, q *peer, qs *go808.Session) {
	if q.ServerClosed() {
		rt.Fail("an uninvolved session was closed")
	}
	if got, ok := e.srv.GetSession(qs.ID()); !ok || got != qs {
		rt.Fail("an uninvolved session cannot be looked up")
	}
	for _, c := range closed() {
		if c.Sess == qs {
			rt.Fail("the close handler ran for a session that is open")
		}
	}
	n := len(q.wire())
	if k := e.srv.Broadcast(text("all")); k != 1 {
		rt.Fail("a broadcast counts %d sessions where one is open", k)
	}
	rt.Idle()
	if len(q.wire()) != n+1 {
		rt.Fail("a broadcast wrote %d messages to the only open session", len(q.wire())-n)
	}
	alive(q, qs)
}

func init() {
	props["C13"] = func(tier string) []Scen {
		var out []Scen
		add := func(fam, name string, bound int, run func()) {
			out = append(out, Scen{Fam: fam, Name: name, Bound: bound, Run: run})
		}
		// prepare makes a session with everything the closers need; the bystander's keepalive
		// is refreshed before a timeout by the same jump, so there is none in those scenarios
		prepare := func(kinds ...string) (e *env, p, q *peer, s, qs *go808.Session, by bool) {
			by = true
			asked := false
			o := go808.Options{}
			for _, k := range kinds {
				if k == "timeout" {
					by, o.Keepalive = false, keep
				}
				if k == "stop" {
					by = false
				}
			}
			e = start(o)
			p, s = e.session(13800138000)
			if by {
				q, qs = e.session(13900139000)
			}
			e.handleFn(idAuth, func(s *go808.Session, m *protocol.Message) { s.Close() })
			for _, k := range kinds {
				if k == "callback" && !asked {
					asked = true
					rt.Quiet(true)
					e.srv.AddHandler(0x0104, func(*go808.Session, *protocol.Message) {})
					for {
						no, err := s.Request(reqEntity(0), func(*protocol.Message) { s.Close() })
						if err != nil {
							rt.Fail("request: %v", err)
						}
						if no == 1 {
							break
						}
					}
					rt.Idle()
					p.Writes = nil
					rt.Quiet(false)
				}
			}
			return
		}
		finish := func(e *env, p, q *peer, s, qs *go808.Session, by bool) {
			rt.Idle()
			rt.Quiet(true)
			rt.Advance(3e9)
			gone(e, p, s)
			if by {
				bystander(e, q, qs)
			} else if n := e.srv.Broadcast(text("x")); n != 0 {
				rt.Fail("a broadcast counts %d sessions where none is open", n)
			}
			rt.Quiet(false)
		}
		for i, a := range closers {
			a := a
			add("one-cause", "one-"+a, pick(tier, 3, 4), func() {
				e, p, q, s, qs, by := prepare(a)
				t := rt.Go(a, func() { act(a, e, p, s) })
				joinAll(t)
				finish(e, p, q, s, qs, by)
			})
			for j, b := range closers {
				if j < i {
					continue
				}
				b := b
				add("two-causes", "two-"+a+"-"+b, pick(tier, 2, 3), func() {
					e, p, q, s, qs, by := prepare(a, b)
					t1 := rt.Go(a, func() { act(a, e, p, s) })
					t2 := rt.Go(b, func() { act(b, e, p, s) })
					joinAll(t1, t2)
					finish(e, p, q, s, qs, by)
				})
			}
			// while the session is busy
			for _, busy := range []string{"message", "send", "request", "broadcast", "lookup"} {
				busy := busy
				add("cause-vs-use", "use-"+a+"-"+busy, pick(tier, 2, 3), func() {
					e, p, q, s, qs, by := prepare(a)
					id := s.ID()
					if busy == "message" {
						e.handle(idLocation)
						p.msg(idLocation, loc())
						p.msg(idLocation, loc())
					}
					t1 := rt.Go(a, func() { act(a, e, p, s) })
					t2 := rt.Go(busy, func() {
						switch busy {
						case "send":
							s.Send(text("a"))
							s.Send(text("b"))
						case "request":
							s.Request(reqEntity(1), record("q"))
						case "broadcast":
							e.srv.Broadcast(text("a"))
							e.srv.Broadcast(text("b"))
						case "lookup":
							lost := false
							for k := 0; k < 4; k++ {
								got, ok := e.srv.GetSession(id)
								if ok && got != s {
									rt.Fail("lookup returns another session")
								}
								if ok && lost {
									rt.Fail("a session came back after it was gone")
								}
								lost = !ok
							}
						}
					})
					joinAll(t1, t2)
					if a == "timeout" && busy == "message" {
						// the messages may have arrived after the clock moved
						rt.Advance((keep + 3) * 1e9)
					}
					finish(e, p, q, s, qs, by)
				})
			}
		}
		// connections that end while they are being set up
		for _, k := range []string{"fin", "reset", "junk", "badsum", "msg-fin", "msg-reset", "msg-junk", "half", "stop", "msg-stop"} {
			for n := 1; n <= 2; n++ {
				k, n := k, n
				add("early-close", fmt.Sprintf("early-%s-%d", k, n), pick(tier, 4-n, 5-n), func() {
					var q *peer
					var qs *go808.Session
					e := start(go808.Options{})
					stop := k == "stop" || k == "msg-stop"
					if !stop {
						q, qs = e.session(13900139000)
					}
					rt.Quiet(true)
					e.handle(idLocation)
					rt.Quiet(false)
					var ps []*peer
					for i := 0; i < n; i++ {
						p := dial(13800138000 + uint64(i))
						ps = append(ps, p)
						switch k {
						case "msg-fin", "msg-reset", "msg-junk", "msg-stop":
							p.msg(idLocation, loc())
						case "half":
							f := frame(hdr{ID: idLocation, Icc: p.icc, Serial: 1}, loc())
							p.PeerSend(f[:len(f)-3])
						}
					}
					var ts []*rt.Thread
					if stop {
						ts = append(ts, rt.Go("stop", func() { e.srv.Stop() }))
					} else {
						for _, p := range ps {
							p := p
							ts = append(ts, rt.Go("peer", func() {
								switch k {
								case "fin", "msg-fin", "half":
									p.PeerClose()
								case "reset", "msg-reset":
									p.PeerReset()
								default:
									act(k[len(k)-4:], e, p, nil)
								}
							}))
						}
						if k == "badsum" {
							ts = nil
							for _, p := range ps {
								act(k, e, p, nil)
							}
						}
					}
					joinAll(ts...)
					rt.Quiet(true)
					rt.Advance(3e9)
					seen := map[uint64]int{}
					for _, c := range closed() {
						if c.Sess == qs && qs != nil {
							rt.Fail("an uninvolved session was closed")
						}
						seen[c.ID]++
						if seen[c.ID] > 1 {
							rt.Fail("the close handler ran twice for one session")
						}
						if _, ok := e.srv.GetSession(c.ID); ok {
							rt.Fail("a closed session can still be looked up")
						}
					}
					acc := 0
					for _, p := range ps {
						if p.Accepted {
							acc++
							if !p.ServerClosed() {
								rt.Fail("the server keeps a dead connection open")
							}
						}
					}
					if len(seen) > acc || !stop && len(seen) != acc {
						rt.Fail("%d connections ended, the close handler ran for %d", acc, len(seen))
					}
					for _, h := range handled(0) {
						if seen[h.ID] != 1 && h.Sess != qs {
							rt.Fail("a session that handled a message was closed without its close handler")
						}
					}
					want := 1
					if stop {
						want = 0
					}
					if got := e.srv.Broadcast(text("x")); got != want {
						rt.Fail("a broadcast counts %d sessions where %d are open", got, want)
					}
					rt.Idle()
					if !stop {
						alive(q, qs)
					}
					rt.Quiet(false)
				})
			}
		}
		// registration comes before the first message, IDs are unique, lookup finds the right one
		for n := 1; n <= 3; n++ {
			n := n
			add("registration", fmt.Sprintf("register-%d", n), pick(tier, 5-n, 6-n), func() {
				e := start(go808.Options{})
				rt.Quiet(true)
				e.handle(idLocation)
				rt.Quiet(false)
				var ps []*peer
				for i := 0; i < n; i++ {
					p := dial(13800138000 + uint64(i))
					p.msg(idLocation, loc())
					ps = append(ps, p)
				}
				rt.Idle()
				hs := handled(0)
				if len(hs) != n {
					rt.Fail("%d messages handled instead of %d", len(hs), n)
				}
				ids := map[uint64]bool{}
				for _, h := range hs {
					if !h.Found {
						rt.Fail("a session cannot be looked up while its first message is handled")
					}
					if ids[h.ID] {
						rt.Fail("two sessions have the same ID %d", h.ID)
					}
					ids[h.ID] = true
					if got, ok := e.srv.GetSession(h.ID); !ok || got != h.Sess {
						rt.Fail("lookup does not return the session")
					}
				}
				if k := e.srv.Broadcast(text("x")); k != n {
					rt.Fail("a broadcast counts %d sessions where %d are open", k, n)
				}
				rt.Idle()
				for _, p := range ps {
					if len(p.wire()) != 1 {
						rt.Fail("a broadcast did not reach every session once")
					}
				}
				if len(closed()) != 0 {
					rt.Fail("an open session was closed")
				}
			})
		}
		// what the close handler does must not matter
		for _, k := range []string{"panic", "send", "close", "lookup", "broadcast", "panic-nil", "setkey"} {
			for _, cause := range []string{"fin", "app", "junk", "stop", "timeout"} {
				k, cause := k, cause
				add("close-handler", "closehandler-"+k+"-"+cause, pick(tier, 2, 3), func() {
					var e *env
					o := go808.Options{CloseHandler: func(s *go808.Session) {
						rt.Log(evClose{Sess: s, ID: s.ID(), Step: rt.Step()})
						switch k {
						case "panic":
							panic("close handler")
						case "panic-nil":
							var m map[string]int
							m["x"] = 1
						case "send":
							s.Send(text("bye"))
						case "close":
							s.Close()
						case "lookup":
							if _, ok := e.srv.GetSession(s.ID()); ok {
								rt.Fail("a closed session is found in its close handler")
							}
						case "broadcast":
							if n := e.srv.Broadcast(text("gone")); cause != "stop" && cause != "timeout" && len(closed()) == 1 && n != 1 {
								rt.Fail("a broadcast from the close handler counts %d sessions where one is open", n)
							}
						case "setkey":
							s.SetPublicKey(nil)
							s.GetPublicKey()
						}
					}}
					if cause == "timeout" {
						o.Keepalive = keep
					}
					e = start(o)
					p, s := e.session(13800138000)
					q, qs := e.session(13900139000)
					t := rt.Go(cause, func() { act(cause, e, p, s) })
					joinAll(t)
					rt.Quiet(true)
					rt.Advance(3e9)
					gone(e, p, s)
					if cause == "stop" || cause == "timeout" {
						gone(e, q, qs)
					} else {
						if n := e.srv.Broadcast(text("x")); n != 1 {
							rt.Fail("a broadcast counts %d sessions where one is open", n)
						}
						rt.Idle()
						alive(q, qs)
						q.PeerClose()
						rt.Idle()
						gone(e, q, qs)
					}
					// the server accepts new sessions
					if cause != "stop" {
						r, rs := e.session(13700137000)
						alive(r, rs)
					}
					rt.Quiet(false)
				})
			}
		}
		// no close handler at all
		for _, cause := range []string{"fin", "app", "timeout"} {
			cause := cause
			add("close-handler", "closehandler-none-"+cause, 1, func() {
				e := newServer(go808.Options{Keepalive: keep})
				rt.Quiet(true)
				e.run()
				rt.Idle()
				rt.Quiet(false)
				p, s := e.session(13800138000)
				t := rt.Go(cause, func() { act(cause, e, p, s) })
				joinAll(t)
				rt.Quiet(true)
				rt.Advance(3e9)
				forgotten(e, p, s)
				rt.Quiet(false)
			})
		}
		// sessions come and go: all short histories of connects and closes
		for _, w := range words("CXSB", pick(tier, 5, 6)) {
			w := w
			if w[0] != 'C' {
				continue
			}
			add("histories", "history-"+w, 0, func() {
				e := start(go808.Options{})
				type ps struct {
					p *peer
					s *go808.Session
				}
				var open []ps
				ids := map[uint64]bool{}
				nclosed := 0
				for i, c := range w {
					switch c {
					case 'C':
						p, s := e.session(13800138000 + uint64(i))
						if ids[s.ID()] {
							rt.Fail("session ID %d is used again", s.ID())
						}
						ids[s.ID()] = true
						open = append(open, ps{p, s})
					case 'X', 'S':
						if len(open) == 0 {
							continue
						}
						x := open[0]
						if c == 'S' {
							x = open[len(open)-1]
							open = open[:len(open)-1]
							x.s.Close()
						} else {
							open = open[1:]
							x.p.PeerClose()
						}
						rt.Idle()
						nclosed++
						gone(e, x.p, x.s)
					case 'B':
						if n := e.srv.Broadcast(text("b")); n != len(open) {
							rt.Fail("a broadcast counts %d sessions where %d are open", n, len(open))
						}
						rt.Idle()
					}
					for _, x := range open {
						if got, ok := e.srv.GetSession(x.s.ID()); !ok || got != x.s {
							rt.Fail("an open session cannot be looked up")
						}
						if x.p.ServerClosed() {
							rt.Fail("an open session was disconnected")
						}
					}
					if len(closed()) != nclosed {
						rt.Fail("the close handler ran %d times for %d closed sessions", len(closed()), nclosed)
					}
				}
			})
		}
		return out
	}
}
